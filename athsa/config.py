"""Build configurations: same option -> macro mapping as /repo/configure.ac,
applied to the *current* /repo/src/defs.h.in."""
import os
import re

REPO = os.environ.get('ATHSA_REPO', '/repo')
SRC = REPO + '/src'

ORDER = {'1': 'FIRST_ORDER', '2': 'SECOND_ORDER_CHAR', '2p': 'SECOND_ORDER_PRIM',
         '3': 'THIRD_ORDER_CHAR', '3p': 'THIRD_ORDER_PRIM',
         '3pck': 'THIRD_ORDER_COMPACT_PRIM_KOREN',
         '3pcl': 'THIRD_ORDER_COMPACT_PRIM_LIMO3'}
FLUX = {'roe': 'ROE_FLUX', 'hlle': 'HLLE_FLUX', 'hllc': 'HLLC_FLUX',
        'hlld': 'HLLD_FLUX', 'force': 'FORCE_FLUX', 'exact': 'EXACT_FLUX',
        'two-shock': 'TWO_SHOCK_FLUX'}
GRAV = {'fft': 'SELF_GRAVITY_USING_FFT', 'fft_disk': 'SELF_GRAVITY_USING_FFT_DISK',
        'fft_obc': 'SELF_GRAVITY_USING_FFT_OBC',
        'multigrid': 'SELF_GRAVITY_USING_MULTIGRID', 'none': 'SELF_GRAVITY_NONE'}
ENABLE = {  # flag -> (token, on, off)
    'cooling': ('COOLING_MODE', 'OPERATOR_SPLIT_COOLING', 'NO_COOLING'),
    'conduction': ('CONDUCTION_MODE', 'THERMAL_CONDUCTION', 'NO_THERMAL_CONDUCTION'),
    'resistivity': ('RESISTIVITY_MODE', 'RESISTIVITY', 'NO_RESISTIVITY'),
    'special-relativity': ('SPECIAL_RELATIVITY_MODE', 'SPECIAL_RELATIVITY', 'NEWTONIAN'),
    'viscosity': ('VISCOSITY_MODE', 'VISCOSITY', 'NO_VISCOSITY'),
    'single': ('PRECISION', 'SINGLE_PREC', 'DOUBLE_PREC'),
    'ghost': ('WRITE_GHOST_MODE', 'WRITE_GHOST_CELLS', 'NO_WRITE_GHOST_CELLS'),
    'mpi': ('MPI_MODE', 'MPI_PARALLEL', 'NO_MPI_PARALLEL'),
    'h-correction': ('H_CORRECTION_MODE', 'H_CORRECTION', 'NO_H_CORRECTION'),
    'fft': ('FFT_MODE', 'FFT_ENABLED', 'NO_FFT'),
    'shearing-box': ('SHEARING_BOX_MODE', 'SHEARING_BOX', 'NO_SHEARING_BOX'),
    'fargo': ('FARGO_MODE', 'FARGO', 'NO_FARGO'),
    'sts': ('TIMESTEPPING_MODE', 'STS', 'NO_STS'),
    'smr': ('MESH_REFINEMENT', 'STATIC_MESH_REFINEMENT', 'NO_MESH_REFINEMENT'),
    'fofc': ('FOFC_MODE', 'FIRST_ORDER_FLUX_CORRECTION', 'NO_FIRST_ORDER_FLUX_CORRECTION'),
    'rotating_frame': ('ROTATING_FRAME_MODE', 'ROTATING_FRAME', 'NO_ROTATING_FRAME'),
    'l1_inflow': ('L1_INFLOW_MODE', 'L1_INFLOW', 'NO_L1_INFLOW'),
}


class Config:
    def __init__(self, **kw):
        """keys: gas eos nscalars gravity particles coord order flux integrator
        problem, plus booleans named like ENABLE (with '_' for '-')"""
        self.opt = dict(gas='mhd', eos='adiabatic', nscalars=0, gravity='none',
                        particles='none', coord='cartesian', order='3', flux=None,
                        integrator='ctu', problem='linear_wave')
        self.flags = set()
        for k, v in kw.items():
            kk = k.replace('_', '-')
            if k in ENABLE or kk in ENABLE:
                if v:
                    self.flags.add(k if k in ENABLE else kk)
            elif k in self.opt:
                self.opt[k] = v
            else:
                raise KeyError(k)
        if self.opt['flux'] is None:
            self.opt['flux'] = 'roe' if self.opt['gas'] == 'mhd' else 'hllc'

    def __getitem__(self, k):
        return self.opt.get(k)

    def has(self, f):
        return f in self.flags

    @property
    def name(self):
        o = self.opt
        base = dict(gas='mhd', eos='adiabatic', nscalars=0, gravity='none',
                    particles='none', coord='cartesian', order='3',
                    integrator='ctu', problem='linear_wave',
                    flux='roe' if o['gas'] == 'mhd' else 'hllc')
        s = [k + '=' + str(v) for k, v in o.items() if base[k] != v or k in ('gas', 'eos')]
        return ','.join(s + sorted(self.flags))

    def tokens(self):
        o = self.opt
        t = {'WARNING1': '', 'WARNING2': '', 'A_CONFIGURE_DATE': 'x',
             'PROBLEM': o['problem'],
             'GAS': o['gas'].upper(), 'EOS': o['eos'].upper(),
             'COORD': o['coord'].upper(), 'NSCALARS': str(o['nscalars']),
             'SELF_GRAVITY_DEFINE': 'NO_SELF_GRAVITY' if o['gravity'] == 'none' else 'SELF_GRAVITY',
             'SELF_GRAVITY_ALGORITHM': GRAV[o['gravity']],
             'PARTICLES_ALGORITHM': 'NO_PARTICLES' if o['particles'] == 'none' else 'PARTICLES',
             'FEEDBACK_DEFINE': 'FEEDBACK' if o['particles'] == 'feedback' else 'NO_FEEDBACK',
             'ACCURACY': ORDER[o['order']], 'FLUX_DEF': FLUX[o['flux']],
             'INTEGRATOR_DEF': 'CTU_INTEGRATOR' if o['integrator'] == 'ctu' else 'VL_INTEGRATOR',
             'DEBUG_MODE': 'OPTIMIZE'}
        for f, (tok, on, off) in ENABLE.items():
            t[tok] = on if f in self.flags else off
        return t

    def defs_h(self):
        txt = open(SRC + '/defs.h.in').read()
        t = self.tokens()

        def rep(m):
            return t.get(m.group(1), m.group(0))
        return re.sub(r'@(\w+)@', rep, txt)
