@Extended.__extend__
class Extended:
    def double(self):
        return self.value * 2
