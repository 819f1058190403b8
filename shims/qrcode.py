class QRCode:
    def add_data(self, d):
        pass

    def print_ascii(self, **k):
        pass
