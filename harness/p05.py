import strength


def run(chk, deep):
    strength.run(chk, deep, "balance")
