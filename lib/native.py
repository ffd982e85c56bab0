"""Builds the small monitored SAT solver (program and IPASIR library) into a scratch directory."""
import os
import subprocess

from . import core


def build(folder):
    source = os.path.join(core.VERIF, 'native', 'minisolver.cpp')
    os.makedirs(folder, exist_ok=True)
    program, library = os.path.join(folder, 'minisolver'), os.path.join(folder, 'libminisolver.so')
    jobs = [subprocess.Popen(['g++', '-O2', '-DPROGRAM', '-o', program, source]),
            subprocess.Popen(['g++', '-O2', '-shared', '-fPIC', '-o', library, source])]
    for job in jobs:
        if job.wait() != 0:
            raise RuntimeError('cannot build the solver of the harness')
    return program, library
