import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import checklib, ehrhart_cases

checklib.main(lambda ck: ehrhart_cases.run(ck, "poly"), "C07", ["count"])
