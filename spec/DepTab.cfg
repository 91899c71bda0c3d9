CONSTANT Lcp <- TabLcp
