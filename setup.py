"""Builds the harness against /repo, so that the checks only rebuild what changed."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, 'target'), CARGO_NET_OFFLINE='true')
sys.exit(subprocess.call(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(here, 'harness'), env=env))
