import drivers
M = ["spec.cpp", "model.cpp"]
PROPS = {
    "P04": dict(src=["P04.cpp"] + M),
    "P09": dict(src=["P09.cpp"]),
    "P11": dict(src=["P11.cpp"]),
    "P12": dict(src=["P12.cpp", "spec.cpp"]),
    "P13": dict(src=["P13.cpp", "spec.cpp"]),
    "P10": dict(src=["P10.cpp"] + M),
    "P14": dict(src=["P14.cpp"] + M),
    "P15": dict(src=["P15.cpp"] + M),
    "P17": dict(src=["P17.cpp"] + M),
    "P27": dict(src=["P27.cpp"]),
    "P39": dict(src=["P39.cpp", "spec.cpp"]),
    "P26": dict(src=["P26.cpp"]),
    "P28": dict(src=["P28.cpp"]+M),
    "P05": dict(src=["P05.cpp"]+M),
    "P06": dict(src=["P06.cpp"]+M),
    "P07": dict(src=["P07.cpp"]+M),
    "P08": dict(src=["P08.cpp"]+M),
    "P16": dict(src=["P16.cpp"]+M),
    "P32": dict(src=["P32.cpp"]+M),
    "P33": dict(src=["P33.cpp"]+M),
    "P18": dict(src=["P18.cpp","state.cpp"]+M),
    "P30": dict(src=["P30.cpp","state.cpp"]+M),
    "P01": dict(src=["P01.cpp","state.cpp","mutator.cpp"]+M),
    "P19": dict(src=["P19.cpp","state.cpp"]+M),
    "P20": dict(src=["P20.cpp","state.cpp"]+M),
    "P21": dict(src=["P21.cpp","state.cpp"]+M),
    "P23": dict(src=["P23.cpp","code.cpp","state.cpp"]+M),
    "P22": dict(src=["P22.cpp","code.cpp","state.cpp"]+M, driver=drivers.p22),
    "P24": dict(src=["P24.cpp","state.cpp"]+M),
    "P25": dict(src=["P25.cpp","state.cpp"]+M),
    "P29": dict(src=["P29.cpp","state.cpp"]+M),
    "P37": dict(src=["P37.cpp","mutator.cpp"]+M),
    "P38": dict(src=["P38.cpp","state.cpp"]+M),
    "P31": dict(src=["P31.cpp","state.cpp"]+M, flavor="tsan", shards=40),
    "P36": dict(src=["P36.cpp","state.cpp","mutator.cpp"]+M, driver=drivers.p36),
    "P34": dict(src=["P34.cpp","state.cpp"]+M),
    "P03": dict(src=["P03.cpp","state.cpp"]+M),
    "P02": dict(src=["P02.cpp","state.cpp","mutator.cpp"]+M),
    "P35": dict(src=["P35.cpp","mutator.cpp"]+M, extra={"fuzzylite-cli": ["@src/main.cpp"]}),
    "P40": dict(src=["P40.cpp", "spec.cpp"]),
    "P41": dict(src=["P41.cpp","spec.cpp"]),
}
NOT_APPLICABLE = {}
