"""property id -> (module, function, evidence level)"""
import importlib

TABLE = {
    "P01": ("codec", "p01", "exploration"),
    "P02": ("codec", "p02", "exploration"),
    "P03": ("codec", "p03", "exploration"),
    "P04": ("codec", "p04", "exploration"),
    "P05": ("codec", "p05", "exploration"),
    "P06": ("conn", "p06", "model_checking"),
    "P07": ("conn", "p07", "model_checking"),
    "P08": ("cluster", "p08", "model_checking"),
    "P09": ("cluster", "p09", "model_checking"),
    "P10": ("cluster", "p10", "model_checking"),
    "P11": ("cluster", "p11", "model_checking"),
    "P12": ("producer", "p12", "model_checking"),
    "P13": ("producer", "p13", "model_checking"),
    "P14": ("producer", "p14", "model_checking"),
    "P15": ("close", "p15", "model_checking"),
    "P16": ("consumer", "p16", "model_checking"),
    "P17": ("consumer", "p17", "model_checking"),
    "P18": ("consumer", "p18", "exploration"),
    "P20": ("grouped", "p20", "model_checking"),
    "P21": ("grouped", "p21", "model_checking"),
    "P22": ("grouped", "p22", "model_checking"),
    "P23": ("grouped", "p23", "model_checking"),
    "P24": ("zk", "p24", "exploration"),
    "P25": ("zk", "p25", "model_checking"),
    "P26": ("zk", "p26", "model_checking"),
    "P27": ("zk", "p27", "model_checking"),
    "P28": ("zk", "p28", "model_checking"),
    "P29": ("zk", "p29", "model_checking"),
    "P30": ("codes", "p30", "model_checking"),
    "P32": ("pipeline", "p32", "model_checking"),
    "P33": ("pipeline", "p33", "model_checking"),
    "P34": ("leaks", "p34", "model_checking"),
    "P35": ("apart", "p35", "model_checking"),
    "P36": ("recover", "p36", "model_checking"),
    "P37": ("strike", "p37", "model_checking"),
    "P31": ("crash", "p31", "model_checking"),
    "P19": ("consumer", "p19", "exploration"),
}


def load(pid):
    mod, fn, level = TABLE[pid]
    m = importlib.import_module("mc.checks." + mod)
    return getattr(m, fn), level
