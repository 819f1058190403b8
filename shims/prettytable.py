class PrettyTable:
    def __init__(self, *a, **k):
        self.rows = []
        self.field_names = []

    def add_row(self, r, **k):
        self.rows.append(r)

    def __str__(self):
        return "\n".join(map(str, self.rows))
