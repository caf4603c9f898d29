"""Order of operations in the main program."""
from ..config import Config
from ..front import Program, AnalysisError
from ..order import Walker, St

RULE = ("Typestate analysis of main() over its syntax tree (every path, loops to a fixpoint, a mesh of three domains on two levels standing for "
        "all): the automaton tracks for every domain whether its initial condition is set, its ghost zones are up to date (physical and exchanged "
        "boundaries, prolongation), it has been advanced in this step, its potential and its boundary values belong to the new density, whether "
        "flux records have been used, and for the mesh whether time, step count, grid times and the time step have been renewed; each operation has "
        "a required state.")
ASSUMPTIONS = ["a super time step has at least one sub-step (three stand for all)", "every domain has a grid on this process", "user work may change any active cell"]
FLOORS = {"order": 400}

DOMS = ((0, 0), (1, 0), (1, 1))
CONFIGS = [
    dict(gas='hydro'), dict(gas='mhd'), dict(gas='mhd', smr=1), dict(gas='mhd', gravity='fft'), dict(gas='hydro', gravity='fft', smr=1),
    dict(gas='mhd', mpi=1), dict(gas='mhd', mpi=1, smr=1), dict(gas='mhd', conduction=1, viscosity=1, resistivity=1), dict(gas='mhd', conduction=1, viscosity=1, resistivity=1, sts=1),
    dict(gas='hydro', conduction=1, smr=1), dict(gas='hydro', shearing_box=1, fargo=1), dict(gas='hydro', particles='feedback'),
    dict(gas='hydro', shearing_box=1, fargo=1, particles='passive'), dict(gas='hydro', cooling=1),
    dict(gas='mhd', coord='cylindrical', fargo=1), dict(gas='hydro', special_relativity=1, integrator='vl'),
]


def tasks(tier):
    return [('main %s' % Config(**kw).name, ('loop', kw)) for kw in CONFIGS]


PER = ('get_eta', 'conduction', 'viscosity', 'resistivity', 'problem', 'bvals_mhd', 'bvals_grav', 'selfg_fc', 'bvals_particle', 'Fargo', 'advect_particles', '*integrate', '*selfgrav')
ALL = ('init_mesh', 'init_grid', 'restart_grids', 'SMR_init', 'RestrictCorrect', 'Prolongate', 'bvals_mhd_init', 'bvals_grav_init', 'bvals_shear_init', 'bvals_particle_init',
       'new_dt', 'init_output', 'lr_states_init', 'integrate_init', 'selfg_init', 'data_output', 'Userwork_in_loop', 'Userwork_after_loop', 'integrate_diff_init',
       'lr_states_destruct', 'integrate_destruct', 'data_output_destruct', 'init_particle', 'exchange_gpcouple_init', 'integrate_cooling', 'integrate_cooling_init',
       'ath_sig_act', 'ath_sig_init', 'par_getd', 'par_geti', 'par_getd_def', 'par_geti_def', 'MPI_Finalize', 'par_dist_mpi', 'par_open', 'change_rundir', 'par_close')
OPAQUE = ('ath_pout', 'ath_perr', 'ath_log_open', 'ath_log_close', 'ath_flush_out', 'ath_flush_err', 'show_config', 'show_config_par', 'par_dump', 'usage', 'par_cmdline', 'par_gets', 'par_gets_def',
          'par_sets', 'par_setd', 'par_seti', 'athout_fp', 'atherr_fp', 'ath_log_set_level', 'ath_strdup', 'baton_start', 'baton_stop')


class Main:
    """the automaton; ts: per-domain keys (name, domain) and global keys"""

    def __init__(self, rec, cfg, prog):
        self.rec, self.cfg = rec, cfg
        self.smr, self.sg = bool(cfg.has('smr')), cfg['gravity'] not in (None, 'none', False)
        self.diff = [n for n, k in (('conduction', 'conduction'), ('viscosity', 'viscosity'), ('resistivity', 'resistivity')) if cfg.has(k)]
        self.particles = cfg['particles'] not in (None, 'none', False)
        self.fargo = bool(cfg.has('fargo'))
        self.ok, self.bad = {}, {}

    inside = ('new_dt',)

    def start(self):
        ts = {'phase': 'start', 'rec': 'zero', 'timed': 0, 'stepped': 0, 'dt': 'none', 'tlim': 0, 'nlim': 0, 'sched': 0, 'final': 0, 'setup': frozenset(), 'restr': 0, 'user': 0, 'cool': 0, 'bye': 0}
        for d in DOMS:
            ts['init', d] = 0
            ts['adv', d] = 0
            ts['ghost', d] = 'none'
            ts['pghost', d] = 0
            ts['phi', d] = 'none'
            ts['gtime', d] = 1
            ts['diff', d] = frozenset()
            ts['fargo', d] = 0
            ts['fc', d] = 0
            ts['eta', d] = 0
            ts['padv', d] = 0
        return ts

    def watches(self, fd):
        return False

    def meet(self, states):
        return min(states, key=lambda s: sum(1 for d in DOMS if s.ts['ghost', d] == 'full'))

    # ---------------------------------------------------------------- obligations
    def need(self, ok, ts, what, where, why):
        if ts.get('dead'):
            return
        k = what
        if ok:
            self.ok.setdefault(k, set()).add(where)
        else:
            self.bad.setdefault((k, where), why)

    def dom(self, args, where, name):
        for a in args:
            if isinstance(a, tuple) and a[0] == '&' and a[1] and a[1][0] == 'G' and a[1][1:].isdigit():
                return tuple(int(x) for x in a[1][1:])
            if isinstance(a, tuple) and a[0] == '&' and a[1] and a[1].startswith('Mesh.Domain['):
                i = a[1][len('Mesh.Domain['):-1].split('][')
                d = tuple(int(x) for x in i)
                if d in DOMS:
                    return d
                raise AnalysisError('%s: %s called for domain %s, which does not exist' % (where, name, i))
        raise AnalysisError('%s: the domain given to %s was not determined: %s' % (where, name, args))

    def fresh(self, ts, d=None):
        return all(ts['ghost', x] == 'full' for x in ([d] if d else DOMS))

    def dirty(self, ts, d=None):
        for x in ([d] if d else DOMS):
            ts['ghost', x] = 'stale'

    def done(self, ts):
        """all per-step work on the active cells is complete"""
        r = all(ts['adv', d] == 1 for d in DOMS) and ts['user'] == 1
        if self.smr:
            r = r and ts['restr']
        if self.sg:
            r = r and all(ts['fc', d] for d in DOMS)
        if self.fargo:
            r = r and all(ts['fargo', d] for d in DOMS)
            if self.particles:
                r = r and all(ts['padv', d] for d in DOMS)
        return r

    # ---------------------------------------------------------------- events
    def test(self, ts, op, a, b, truth):
        ts = dict(ts)
        T, L = ('val', 'Mesh.time'), ('par', 'time', 'tlim')
        N, M = ('val', 'Mesh.nstep'), ('par', 'time', 'nlim')
        if a == T and b == L and op == '<' and truth or a == L and b == T and op == '<=' and not truth:
            ts['tlim'] = 1
        if a == N and b == M and op == '<' and truth or a == M and b == N and op == '<=' and not truth or a == M and b == 0 and op == '<' and truth or a == 0 and b == M and op == '<=' and not truth:
            ts['nlim'] = 1
        return ts

    def store(self, ts, place, op, v, where, w):
        if place == 'Mesh.nstep':
            if ts['phase'] == 'loop':
                self.need(op == '+=' and v == 1, ts, 'the step count grows by one per step', where, 'nstep is changed by %s %s' % (op, v))
                ts['stepped'] = min(2, ts['stepped'] + 1)
                ts['nlim'] = 0
            return ts
        if place == 'Mesh.time':
            if ts['phase'] == 'loop':
                good = op == '+=' and v == ('val', 'Mesh.dt') or op == '=' and v in (('op', '+', ('val', 'Mesh.time'), ('val', 'Mesh.dt')), ('op', '+', ('val', 'Mesh.dt'), ('val', 'Mesh.time')))
                self.need(good, ts, 'time advances by the time step', where, 'Mesh.time %s %s' % (op, v))
                self.need(all(ts['adv', d] == 1 for d in DOMS), ts, 'time advances after every domain was integrated once', where, 'integrations per domain when the time is advanced: %s' % [ts['adv', d] for d in DOMS])
                self.need(ts['dt'] == 'used', ts, 'time advances by the step that was integrated', where, 'the time step was renewed between integration and the update of time')
                ts['timed'] = min(2, ts['timed'] + 1)
                ts['tlim'] = 0
                for d in DOMS:
                    ts['gtime', d] = 0
            return ts
        if place == 'Mesh.dt' and ts['phase'] == 'loop' and not ts.get('indt'):
            self.need(False, ts, 'the time step is set by new_dt only', where, 'Mesh.dt is assigned in main')
            return ts
        for d in DOMS:
            if place == 'G%d%d.time' % d and ts['phase'] == 'loop':
                self.need(v == ('val', 'Mesh.time'), ts, 'grids take over the time of the mesh', where, 'the time of the grid is set to %s' % (v,))
                ts['gtime', d] = 1 if ts['timed'] else 0
        return ts

    def call(self, ts, name, args, where, w):
        ret = None
        need = self.need
        if name in ('par_getd', 'par_geti', 'par_getd_def', 'par_geti_def'):
            if len(args) > 1 and all(isinstance(x, tuple) and x[0] == 'str' for x in args[:2]):
                ret = ('par', args[0][1].strip('"'), args[1][1].strip('"'))
            return ts, ret
        if ts.get('dead'):
            return ts, {'integrate_init': ('fn', '*integrate'), 'selfg_init': ('fn', '*selfgrav')}.get(name)
        ts['indt'] = int(name == 'new_dt' or bool(ts.get('indt')) and name != 'new_dt.')
        loop = ts['phase'] == 'loop'
        up = ts['setup']
        if name == 'init_mesh':
            need('par_open' in up or self.cfg.has('mpi'), ts, 'the mesh is built after the parameters were read', where, 'no parameter file has been opened')
        elif name == 'init_grid':
            need('init_mesh' in up, ts, 'grids are built on the mesh', where, 'init_mesh has not been called')
        elif name in ('problem', 'restart_grids', 'SMR_init'):
            need('init_grid' in up, ts, 'initial conditions are set on existing grids', where, 'init_grid has not been called')
            if self.particles and name != 'SMR_init':
                need('init_particle' in up, ts, 'initial conditions find the particle structures', where, 'init_particle has not been called')
            if name == 'problem':
                ts['init', self.dom(args, where, name)] = 1
            elif name == 'restart_grids':
                for d in DOMS:
                    ts['init', d] = 1
                ts['dt'] = 'fresh'
        elif name == 'RestrictCorrect':
            need(self.smr and 'SMR_init' in up, ts, 'restriction needs the refinement buffers', where, 'SMR_init has not been called')
            need(all(ts['init', d] for d in DOMS), ts, 'restriction follows the initial condition', where, 'not every domain has its initial condition')
            after = 'after explicit diffusion' if all(ts['diff', d] and ts['adv', d] == 0 for d in DOMS) else 'without a new integration'
            need(ts['rec'] != 'used', ts, 'recorded fluxes correct the coarse grid only once, ' + after, where,
                 'RestrictCorrect applies the fluxes recorded by the last integration a second time')
            if loop and any(ts['adv', d] for d in DOMS):
                need(all(ts['adv', d] == 1 for d in DOMS), ts, 'restriction follows the integration of every domain', where, 'integrations per domain: %s' % [ts['adv', d] for d in DOMS])
                need(not self.fargo or all(ts['fargo', d] for d in DOMS), ts, 'restriction follows orbital advection', where, 'Fargo has not been applied to every domain')
            ts['restr'] = 1
            if ts['rec'] == 'fresh':
                ts['rec'] = 'used'
            self.dirty(ts)
        elif name == 'bvals_mhd_init':
            need(all(ts['init', d] for d in DOMS), ts, 'boundary conditions are selected after the problem could enrol its own', where, 'not every domain has its initial condition')
        elif name == 'bvals_mhd':
            d = self.dom(args, where, name)
            need('bvals_mhd_init' in up, ts, 'boundary values follow their set-up', where, 'bvals_mhd_init has not been called')
            if self.fargo or self.cfg.has('shearing-box'):
                need('bvals_shear_init' in up, ts, 'boundary values follow the shearing-sheet set-up', where, 'bvals_shear_init has not been called')
            need(ts['init', d], ts, 'boundary values follow the initial condition', where, 'domain %s has no initial condition' % (d,))
            if loop and ts['adv', d]:
                good = ts['timed'] == 1 and ts['gtime', d]
                ts['ghost', d] = 'bv' if good and self.done(ts) else 'early'
            else:
                ts['ghost', d] = 'bv'
            if not self.smr and ts['ghost', d] == 'bv':
                ts['ghost', d] = 'full'
        elif name == 'bvals_particle':
            d = self.dom(args, where, name)
            need('bvals_particle_init' in up, ts, 'particle boundaries follow their set-up', where, 'bvals_particle_init has not been called')
            ts['pghost', d] = 1
        elif name == 'Prolongate':
            need('SMR_init' in up, ts, 'prolongation needs the refinement buffers', where, 'SMR_init has not been called')
            need(all(ts['ghost', d] in ('bv', 'full') for d in DOMS), ts, 'prolongation follows the boundary values of every domain', where,
                 'ghost zones per domain: %s' % [ts['ghost', d] for d in DOMS])
            need(ts['restr'], ts, 'prolongation follows restriction', where, 'the coarse solution has not been restricted since the fine one changed')
            for d in DOMS:
                if ts['ghost', d] == 'bv':
                    ts['ghost', d] = 'full'
        elif name == 'new_dt':
            need(self.fresh(ts), ts, 'the time step is computed from complete boundary values', where, 'ghost zones per domain: %s' % [ts['ghost', d] for d in DOMS])
            if loop:
                need(self.done(ts), ts, 'the time step is renewed after all operations of the step', where, self.missing(ts))
                need(ts['timed'] == 1, ts, 'time is advanced exactly once per step', where, 'time was advanced %d times since the last time step' % ts['timed'])
                need(ts['stepped'] == 1, ts, 'the step count is advanced exactly once per step', where, 'nstep was advanced %d times' % ts['stepped'])
                need(all(ts['gtime', d] for d in DOMS), ts, 'every grid has the time of the mesh', where, 'grid time not renewed on %s' % [d for d in DOMS if not ts['gtime', d]])
                need(not self.particles or all(ts['pghost', d] for d in DOMS), ts, 'particle boundary values are renewed every step', where, 'bvals_particle is missing on %s' % [d for d in DOMS if not ts['pghost', d]])
            ts['dt'], ts['timed'], ts['stepped'], ts['user'] = 'fresh', 0, 0, 0
            for d in DOMS:
                ts['adv', d], ts['fc', d], ts['fargo', d], ts['padv', d] = 0, 0, 0, 0
                ts['diff', d] = frozenset()
        elif name == 'get_eta':
            d = self.dom(args, where, name)
            if ts['ghost', d] in ('full',) and ts['adv', d] == 0:
                ts['eta', d] = 1
        elif name == 'init_output':
            ts['sched'] = 1
        elif name == 'integrate_init':
            ret = ('fn', '*integrate')
        elif name == 'selfg_init':
            need(all(ts['init', d] for d in DOMS), ts, 'gravity is set up after the problem has set its constants', where, 'no initial condition')
            ret = ('fn', '*selfgrav')
        elif name in ('conduction', 'viscosity', 'resistivity'):
            d = self.dom(args, where, name)
            need('integrate_diff_init' in up, ts, 'diffusion follows its set-up', where, 'integrate_diff_init has not been called')
            g = ts['ghost', d]
            ok = g == 'full' or isinstance(g, tuple) and name not in g
            need(ok, ts, 'diffusion starts from complete boundary values', where, 'ghost zones of domain %s: %s' % (d, g))
            if name == 'resistivity':
                need(ts['eta', d], ts, 'resistivity uses the diffusivities of the current state', where, 'the diffusivities of domain %s have not been evaluated since it was last integrated' % (d,))
            need(ts['adv', d] == 0, ts, 'diffusion precedes the integration', where, 'domain %s was already integrated in this step' % (d,))
            ts['ghost', d] = (g if isinstance(g, tuple) else ('after',)) + (name,)
            ts['diff', d] = ts['diff', d] | {name}
            ts['restr'] = 0
        elif name == '*integrate':
            d = self.dom(args, where, name)
            ts['phase'] = 'loop'
            for x in ('lr_states_init', 'integrate_init'):
                need(x in up, ts, 'integration follows the allocation of work arrays', where, x + ' has not been called')
            need(self.fresh(ts, d), ts, 'every domain is integrated from complete boundary values', where, 'ghost zones of domain %s: %s' % (d, ts['ghost', d]))
            need(ts['dt'] in ('fresh', 'used') and (ts['dt'] == 'fresh' or any(ts['adv', x] for x in DOMS)), ts, 'every step uses a newly computed time step', where, 'the time step is ' + ts['dt'])
            need(ts['adv', d] == 0, ts, 'every domain is integrated once per step', where, 'domain %s is integrated again' % (d,))
            need(ts['diff', d] == frozenset(self.diff), ts, 'every diffusion operator is applied to every domain in every step', where, 'applied to domain %s: %s' % (d, sorted(ts['diff', d])))
            need(ts['tlim'] and ts['nlim'], ts, 'no step is taken beyond tlim or nlim', where, 'reached without testing %s' % ('the time limit' if not ts['tlim'] else 'the cycle limit'))
            if self.sg:
                need(ts['phi', d] in ('bc', 'fc'), ts, 'integration starts from the potential of the current density', where, 'potential of domain %s: %s' % (d, ts['phi', d]))
            need(ts['sched'] == 2, ts, 'every step checks for due outputs before it starts', where, 'data_output has not been called since the last step')
            if self.cfg.has('cooling'):
                need(ts['cool'] == 1, ts, 'cooling is applied once in every step', where, 'integrate_cooling called %d times' % ts['cool'])
            if self.particles:
                need(ts['pghost', d], ts, 'integration starts from the boundary values of the particles', where, 'bvals_particle has not been called for domain %s' % (d,))
                if self.cfg['particles'] == 'feedback':
                    need('exchange_gpcouple_init' in up, ts, 'integration follows the set-up of the particle coupling', where, 'exchange_gpcouple_init has not been called')
            ts['pghost', d] = 0
            ts['bye'] = ts['final'] = 0
            ts['adv', d] = min(2, ts['adv', d] + 1)
            ts['dt'] = 'used'
            ts['restr'] = 0
            if all(ts['adv', x] for x in DOMS):
                ts['rec'] = 'fresh'
                ts['sched'] = 1
                ts['cool'] = 0
            ts['phi', d] = 'old'
            ts['eta', d] = 0
            ts['ghost', d] = 'stale'
        elif name == 'Fargo':
            d = self.dom(args, where, name)
            need(ts['adv', d] == 1, ts, 'orbital advection follows the integration', where, 'domain %s not integrated' % (d,))
            ts['fargo', d] = 1
            ts['ghost', d] = 'stale'
        elif name == 'advect_particles':
            ts['padv', self.dom(args, where, name)] = 1
        elif name == 'integrate_cooling':
            need('integrate_cooling_init' in up, ts, 'cooling follows its set-up', where, 'integrate_cooling_init has not been called')
            need(self.fresh(ts) and not any(ts['adv', d] for d in DOMS), ts, 'cooling starts from a completed step', where, 'ghost zones: %s' % [ts['ghost', d] for d in DOMS])
            ts['cool'] = min(2, ts['cool'] + 1)
            self.dirty(ts)
        elif name == 'Userwork_in_loop':
            need(all(ts['adv', d] == 1 for d in DOMS) and (not self.smr or ts['restr']), ts, 'user work sees the completed step', where, self.missing(ts, False))
            ts['user'] = min(2, ts['user'] + 1)
            self.dirty(ts)
        elif name == '*selfgrav':
            d = self.dom(args, where, name)
            need('selfg_init' in up, ts, 'gravity follows its set-up', where, 'selfg_init has not been called')
            if loop:
                need(ts['adv', d] == 1 and (not self.smr or ts['restr']), ts, 'the potential is computed from the new density', where, 'domain %s: %s' % (d, self.missing(ts, False)))
                if self.sg and ts['user'] != 1:
                    need(False, ts, 'the potential is computed after the user work of the step', where, 'Userwork_in_loop comes later')
            ts['phi', d] = 'new'
        elif name == 'bvals_grav':
            d = self.dom(args, where, name)
            need('bvals_grav_init' in up, ts, 'boundary values of the potential follow their set-up', where, 'bvals_grav_init has not been called')
            need(ts['phi', d] == 'new', ts, 'boundary values of the potential follow its solution', where, 'potential of domain %s: %s' % (d, ts['phi', d]))
            ts['phi', d] = 'bc'
        elif name == 'selfg_fc':
            d = self.dom(args, where, name)
            need(ts['phi', d] == 'bc' and ts['adv', d] == 1, ts, 'the gravity correction uses the new potential', where, 'potential of domain %s: %s, integrations %d' % (d, ts['phi', d], ts['adv', d]))
            need(not ts['fc', d], ts, 'the gravity correction is applied once', where, 'domain %s is corrected again' % (d,))
            need(not ts['timed'], ts, 'the gravity correction belongs to the step before time advances', where, 'time has been advanced')
            ts['fc', d] = 1
            ts['ghost', d] = 'stale'
        elif name == 'data_output':
            need('init_output' in up, ts, 'outputs follow their set-up', where, 'init_output has not been called')
            need('change_rundir' in up, ts, 'outputs are written in the run directory', where, 'change_rundir has not been called')
            need(self.fresh(ts) and ts['dt'] == 'fresh' and not any(ts['adv', d] for d in DOMS), ts, 'outputs show a completed step', where,
                 'ghost zones: %s, time step %s, integrations %s' % ([ts['ghost', d] for d in DOMS], ts['dt'], [ts['adv', d] for d in DOMS]))
            if self.sg:
                need(all(ts['phi', d] == 'bc' for d in DOMS), ts, 'outputs show the potential of the current density', where, 'potential: %s' % [ts['phi', d] for d in DOMS])
            ts['sched'] = 2
            if args[-1] == 1:
                ts['final'] = 1
            elif args[-1] != 0:
                raise AnalysisError('%s: output flag %s' % (where, args[-1]))
        elif name == 'Userwork_after_loop':
            ts['bye'], ts['final'] = 1, 0
        elif name in ('lr_states_destruct', 'integrate_destruct', 'data_output_destruct', 'par_close'):
            if ts['phase'] == 'loop':
                need(ts['bye'], ts, 'user work follows the main loop', where, 'Userwork_after_loop has not been called since the last step')
                need(ts['final'] == 1, ts, 'the final state is written before the structures are freed', where, 'data_output with the flag set has not been called after the main loop')
                ts['phase'] = 'end'
        ts['setup'] = up | ({name} if not loop and name in ALL else set())
        return ts, ret

    def missing(self, ts, full=True):
        m = []
        if not all(ts['adv', d] == 1 for d in DOMS):
            m.append('integrations per domain %s' % [ts['adv', d] for d in DOMS])
        if self.smr and not ts['restr']:
            m.append('the solution has not been restricted')
        if full and ts['user'] != 1:
            m.append('Userwork_in_loop called %d times' % ts['user'])
        if full and self.sg and not all(ts['fc', d] for d in DOMS):
            m.append('gravity correction missing on %s' % [d for d in DOMS if not ts['fc', d]])
        return '; '.join(m) or 'complete'


def loop(rec, kw):
    cfg = Config(**kw)
    prog = Program(cfg)
    A = Main(rec, cfg, prog)
    known = {'N_STS': 3, 'Mesh.NLevels': 2, 'Mesh.DomainsPerLevel[0]': 1, 'Mesh.DomainsPerLevel[1]': 2}
    for d in DOMS:
        known['Mesh.Domain[%d][%d].Grid' % d] = ('&', 'G%d%d' % d)
    W = Walker(prog, A, PER + ALL, known=known, opaque=OPAQUE, untracked=('Mesh', 'G00', 'G10', 'G11'))
    W.main = 'Mesh'
    outs = W.run('main', {}, A.start())
    rec.stats['paths'] = rec.stats.get('paths', 0) + len(outs) if hasattr(rec, 'stats') else 0
    for f in W.visited:
        rec.fn(f)
    ends = [o for o in outs if not o.ts.get('dead')]
    ran = [o for o in ends if o.ts['phase'] == 'end']
    if not ran:
        if any('integrate_destruct' in o.ts['setup'] or 'lr_states_destruct' in o.ts['setup'] for o in ends):
            rec.bad('order', 'main.c: main', 'every run integrates all domains in every step: main reaches its end on no path that calls the integrator', key='order|main|integrates')
        else:
            raise AnalysisError('no path of main through the main loop to its end was found')
    A.need(not ran or all(o.ts['final'] == 1 for o in ran), {}, 'every run ends with a final output', 'main', 'a path through main ends without the final data_output')
    seen = set()
    for (what, where), why in sorted(A.bad.items()):
        if what in seen:
            continue
        seen.add(what)
        rec.bad('order', where, '%s: %s' % (what, why), key='order|main|' + what)
    for what, ws in sorted(A.ok.items()):
        if what not in seen:
            rec.ok('order', '%s (%s)' % (what, ', '.join(sorted(ws))[:120]))
