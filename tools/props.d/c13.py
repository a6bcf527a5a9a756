
p("C13", "Random number engines and distributions are exact, seeded and resumable",
  "Each engine (Marsaglia, Mersenne Twister, XORShift) yields, for every seed and every interleaving of output types, exactly the sequence of its published algorithm; equal seeds give equal sequences; re-seeding restarts the sequence; integer outputs are the documented bits and nextUniform lies in its documented range; "
  "each distribution (uniform, exponential, Gaussian, Poisson, discrete, constant) returns exactly the documented transformation of its engine's outputs and its parameters; and serializing any engine or distribution at any point and continuing with the copy yields the same sequence.",
  ["inputs", "histories", "crash_points"], "all seeds, parameters, interleavings of calls and serialization points",
  "The tests compare one seed's outputs with golden files; errors at particular state indices (twist boundary), extreme outputs (0, 2^32-1), odd/even Gaussian state or after a checkpoint stay invisible.",
  ["rng/marsaglia.cc", "rng/mersenne.cc", "rng/xorshift.cc", "rng/uniform.h", "rng/expon.h", "rng/gaussian.h", "rng/poisson.h", "rng/discrete.h", "rng/constant.h", "rng/distrib.h", "rng/rng.h"],
  [("engines", "rng/mersenne.cc"), ("distributions", "rng/gaussian.h")],
  "c13", "model-based property testing: call sequences on the real classes against independent reference implementations", UNIT_TRUST)
