"""Which state machines of the specification decide which property."""
GEN = dict(module="Gen", cfg="Gen.cfg")
WRITER = dict(module="Writer", cfg="Writer.cfg")
ITER = dict(module="Iter", cfg="Iter.cfg")
MACHINES = {p: [GEN] for p in ("P01 P02 P03 P05 P06 P07 P08 P09 P10 P11 P12 P13 P15 P16 P17 P18 P19 P21 P22 P23").split()}
MACHINES["P14"] = [WRITER]
VIEWS = dict(module="Views", cfg="Views.cfg")
MACHINES["P17"] = [GEN, ITER]
MACHINES["P20"] = [GEN, VIEWS, ITER]
FRAMING = dict(module="Framing", cfg="Framing.cfg")
for p in ("P01", "P03"):
    MACHINES[p] = [GEN, FRAMING]
CHANNEL = dict(module="Channel", cfg="Channel.cfg")
MACHINES["P04"] = [GEN, FRAMING]
for p in ("P02 P03 P04 P05 P07 P08 P09 P10 P11 P12 P15 P16 P17 P18 P19 P20 P21 P22").split():
    MACHINES[p] = MACHINES[p] + [CHANNEL]
