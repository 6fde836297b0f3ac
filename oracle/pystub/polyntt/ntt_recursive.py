from polyntt.ntt_iterative import NTTIterative


class NTTRecursive(NTTIterative):
    pass
