"""tools/ir.py cNN OUT.ll : the IR of one property's harnesses (development aid)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
run.build_ir(sys.argv[1], sys.argv[2], run.harness_dir())
