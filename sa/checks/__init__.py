TABLE = {
    "P01": ("layout", "run_pd"),
    "P02": ("directory", "run"),
    "P03": ("globalsec", "run"),
    "P04": ("scaling", "run"),
    "P05": ("wrapper", "run"),
    "P06": ("refs", "run"),
    "P07": ("memsafe", "run"),
    "P08": ("failure", "run"),
    "P09": ("heap", "run"),
    "P10": ("etypes", "run"),
    "P11": ("attrs", "run"),
    "P12": ("algebra", "run"),
    "P14": ("model", "run"),
    "P13": ("records", "run"),
    "P15": ("fresh", "run"),
}
