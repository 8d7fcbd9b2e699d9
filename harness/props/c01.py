from props.common_time import TimeCheck


class C01(TimeCheck):
    id = "C01"
    mix = ("new", "new", "new", "setdata", "poke", "poke", "pokecopy", "settz")


CHECK = C01()
