#!/usr/bin/env python3-vt
import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'vt'))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
import driver
sys.stdout.reconfigure(line_buffering=True)
sys.exit(driver.main(sys.argv[1]))
