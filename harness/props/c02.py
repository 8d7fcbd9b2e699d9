from props.common_time import TimeCheck


class C02(TimeCheck):
    id = "C02"
    mix = ("settz", "settz", "settz", "setdisp", "setdisp", "new", "setdata", "pokecopy")


CHECK = C02()
