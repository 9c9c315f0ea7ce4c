available = False

def enable():
    pass
