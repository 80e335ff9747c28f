"""Nothing to build: checks that the tools are there."""
import os


def main():
    import z3
    import cvc5
    print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
    os.makedirs('evidence', exist_ok=True)
    os.makedirs('replays', exist_ok=True)


if __name__ == '__main__':
    main()
