"""Nothing is kept between runs: every check stages and compiles /repo's current tree itself. This only checks the tools."""
import subprocess,sys
sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import z3,mpmath
print('z3',z3.get_version_string(),'mpmath',mpmath.__version__)
subprocess.check_call(['cargo','--version'])
