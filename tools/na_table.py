pure = "no concurrency, clock, I/O, network or crash behaviour: the result depends on the arguments alone, so there is no schedule or fault for a simulator to choose"
for i in ("X01", "X02", "X03", "X04", "X05"): NA[i] = pure
