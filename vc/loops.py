class Loops:
    def __init__(self, eng, models):
        self.e = eng
    def on_edge(self, st, fr, prev, bb):
        return False
    def on_cond(self, st, fr, ins, f):
        return False
