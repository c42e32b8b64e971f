import decide


def main():
    return decide.main('V01', 'vts')
