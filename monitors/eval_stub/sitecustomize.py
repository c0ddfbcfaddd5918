"""Lets the monitor say how many processors the machine has."""
import os

if os.environ.get('VERIF_CPUS'):
    os.cpu_count = lambda: int(os.environ['VERIF_CPUS'])
