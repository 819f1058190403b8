import os


class Mnemonic:
    def __init__(self, language="english"):
        pass

    def generate(self, strength=128):
        return " ".join(os.urandom(4).hex() for _ in range(strength * 3 // 32))
