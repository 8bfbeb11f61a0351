"""setup_cmd: checks that the tools are there and proves the lemma instances used by the prover"""
import sys


def main():
    import z3
    from . import check, families, lemmas      # noqa: F401
    print('z3', z3.get_version_string())
    return lemmas.main()


if __name__ == '__main__':
    sys.exit(main())
