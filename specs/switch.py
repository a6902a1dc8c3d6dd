"""Call sequences of the speedup switch (every one of up to four calls): analysed, never executed."""
from malstroem.algorithms import speedups


def seq_():
    pass


def seq_e():
    speedups.enable()


def seq_d():
    speedups.disable()


def seq_ee():
    speedups.enable()
    speedups.enable()


def seq_ed():
    speedups.enable()
    speedups.disable()


def seq_de():
    speedups.disable()
    speedups.enable()


def seq_dd():
    speedups.disable()
    speedups.disable()


def seq_eee():
    speedups.enable()
    speedups.enable()
    speedups.enable()


def seq_eed():
    speedups.enable()
    speedups.enable()
    speedups.disable()


def seq_ede():
    speedups.enable()
    speedups.disable()
    speedups.enable()


def seq_edd():
    speedups.enable()
    speedups.disable()
    speedups.disable()


def seq_dee():
    speedups.disable()
    speedups.enable()
    speedups.enable()


def seq_ded():
    speedups.disable()
    speedups.enable()
    speedups.disable()


def seq_dde():
    speedups.disable()
    speedups.disable()
    speedups.enable()


def seq_ddd():
    speedups.disable()
    speedups.disable()
    speedups.disable()


def seq_eeee():
    speedups.enable()
    speedups.enable()
    speedups.enable()
    speedups.enable()


def seq_eeed():
    speedups.enable()
    speedups.enable()
    speedups.enable()
    speedups.disable()


def seq_eede():
    speedups.enable()
    speedups.enable()
    speedups.disable()
    speedups.enable()


def seq_eedd():
    speedups.enable()
    speedups.enable()
    speedups.disable()
    speedups.disable()


def seq_edee():
    speedups.enable()
    speedups.disable()
    speedups.enable()
    speedups.enable()


def seq_eded():
    speedups.enable()
    speedups.disable()
    speedups.enable()
    speedups.disable()


def seq_edde():
    speedups.enable()
    speedups.disable()
    speedups.disable()
    speedups.enable()


def seq_eddd():
    speedups.enable()
    speedups.disable()
    speedups.disable()
    speedups.disable()


def seq_deee():
    speedups.disable()
    speedups.enable()
    speedups.enable()
    speedups.enable()


def seq_deed():
    speedups.disable()
    speedups.enable()
    speedups.enable()
    speedups.disable()


def seq_dede():
    speedups.disable()
    speedups.enable()
    speedups.disable()
    speedups.enable()


def seq_dedd():
    speedups.disable()
    speedups.enable()
    speedups.disable()
    speedups.disable()


def seq_ddee():
    speedups.disable()
    speedups.disable()
    speedups.enable()
    speedups.enable()


def seq_dded():
    speedups.disable()
    speedups.disable()
    speedups.enable()
    speedups.disable()


def seq_ddde():
    speedups.disable()
    speedups.disable()
    speedups.disable()
    speedups.enable()


def seq_dddd():
    speedups.disable()
    speedups.disable()
    speedups.disable()
    speedups.disable()
