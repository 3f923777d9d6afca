"""check.py <property> [quick|thorough]: decide one property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib, ham, par, colpa, txt, store
T = {"C23": ham.c23, "C19": store.c19, "C10": ham.c10, "C21": ham.c21, "C18": store.c18, "C17": store.c17, "C15": store.c15, "C16": store.c16, "C20": store.c20, "C13": txt.c13, "C14": txt.c14, "C22": txt.c22, "C12": colpa.c12, "C07": par.c07, "C01": ham.c01, "C02": ham.c02, "C03": ham.c03, "C04": ham.c04, "C05": ham.c05, "C06": ham.c06,
     "C08": ham.c08, "C09": ham.c09, "C11": ham.c11}
if __name__ == "__main__":
    if sys.argv[1:] == ["setup"]:
        # nothing is kept between runs; only make sure that the tools are here
        try:
            vlib.classes()
        finally:
            vlib.shutil.rmtree(vlib.WORK, ignore_errors=True)
        sys.exit(0)
    sys.exit(vlib.main(T))
