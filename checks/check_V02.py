import decide


def main():
    return decide.main('V02', 'ts')
