"""MPI ghost-zone exchange of the gas variables."""
from ..config import Config
from ..front import Program
from .. import halo
from ..halo import gp
from ..spec import *

RULE = ("The ghost-zone exchange routine is summarised by the gated-value dataflow engine with its packing and "
        "unpacking routines inlined, for each direction, dimensionality and neighbour scenario (both/left/right/none). "
        "Rules: one message per existing neighbour; partner, tag, count, type and communicator of every receive agree "
        "with the send the same program performs on the other side; packed words occupy [0,count) without holes or "
        "overlaps; receive buffers are read only after the completion of that receive in every completion order; send "
        "buffers are not reused before completion; every ghost location of every variable equals the overlapped "
        "interior location of the neighbour; physical conditions are applied exactly where no neighbour exists and "
        "in x1-x2-x3 order; neighbour ranks are mutually consistent; the buffers are large enough.")
ASSUMPTIONS = ["neighbouring grids have equal transverse extents (guaranteed by the domain decomposition)",
               "separately allocated arrays do not overlap", "MPI delivers messages as specified by the standard"]
FLOORS = {'ghost-value': 400, 'count': 50, 'tag': 50, 'completion': 200, 'partner': 40, 'order': 20, 'bc-called': 20}


def configs(tier):
    base = [dict(gas='mhd', eos='adiabatic', nscalars=2, mpi=1),
            dict(gas='hydro', eos='isothermal', nscalars=1, mpi=1)]
    if tier == 'thorough':
        base += [dict(gas='mhd', eos='isothermal', nscalars=0, mpi=1), dict(gas='hydro', eos='adiabatic', nscalars=0, mpi=1),
                 dict(gas='mhd', eos='adiabatic', mpi=1, special_relativity=1, integrator='vl', order='2p'),
                 dict(gas='mhd', mpi=1, smr=1, nscalars=1), dict(gas='mhd', mpi=1, resistivity=1),
                 dict(gas='mhd', mpi=1, particles='feedback'), dict(gas='mhd', mpi=1, coord='cylindrical')]
    return base


def tasks(tier):
    out = []
    for kw in configs(tier):
        n = Config(**kw).name
        for d in range(3):
            for dims in range(d + 1, 4):
                out.append(('x%d %dD %s' % (d + 1, dims, n), ('exchange', kw, d, dims)))
                out.append(('bufsize x%d %dD %s' % (d + 1, dims, n), ('bufs', kw, d, dims)))
        out.append(('ranks ' + n, ('ranks', kw)))
    return out


def mhd_fields(cfg):
    out = []
    for f in cons_fields(cfg):
        out.append(('.'.join(str(x) for x in f), (lambda f: lambda c: gp('U', c[2], c[1], c[0], *f))(f), None))
    if cfg['gas'] == 'mhd':
        for q in range(3):
            out.append(('B%di' % (q + 1), (lambda q: lambda c: gp('B%di' % (q + 1), c[2], c[1], c[0]))(q), q))
    return out


def exchange(rec, kw, d, dims):
    cfg = Config(**kw)
    prog = Program(cfg)
    halo.check(rec, prog, 'bvals_mhd', 'bvals_mhd.c', '%sx%d_id', d, dims, mhd_fields(cfg), '%sx%d_BCFun')


def ranks(rec, kw):
    prog = Program(Config(**kw))
    halo.neighbours(rec, prog, 'init_grid', 'init_grid.c', '%sx%d_id', False)
    halo.neighbours(rec, prog, 'bvals_mhd_init', 'bvals_mhd.c', '%sx%d_id', True)


def bufs(rec, kw, d, dims):
    prog = Program(Config(**kw))
    halo.bufsize(rec, prog, 'bvals_mhd', 'bvals_mhd_init', 'bvals_mhd.c', '%sx%d_id', d, dims)
