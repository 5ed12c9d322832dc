# simulated runs per property: (quick, thorough), and runs per child process
_Q = {"C01": 150000, "C02": 130000, "C03": 180000, "C04": 250000, "C05": 250000, "C06": 200000, "C07": 150000, "C08": 170000, "C09": 180000, "C10": 180000,
      "C11": 180000, "C12": 200000, "C13": 40000, "C14": 24000, "C15": 10000, "C16": 60000, "C17": 150000, "C18": 120000, "C19": 150000, "C20": 16000, "C21": 20000, "C22": 6000, "C23": 100000}
RUNS = {p: (q, q * 40) for p, q in _Q.items()}
CHUNK = {}
# further runs in a process that has not used the library before
_C = {p: 2000 for p in RUNS}
_C.update(C15=3000, C16=4000, C06=3000)
COLD = {p: (c, c * 40) for p, c in _C.items()}
