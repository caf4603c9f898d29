ENGINE = ('The deciding step reads the preprocessed source of the current tree, summarises every function by gated '
          'symbolic dataflow (no path is executed or handed to a solver) and compares the summarised final contents '
          'of symbolic memory locations with the specification. ')
PROPS = [
 dict(id='C01', title='Restart files carry the complete state and are read back exactly as written',
  statement='What dump_restart writes and restart_grids reads are the same sequence of labelled records of the same size, over the same index ranges, each value being read into the very variable it was written from; the records include everything needed to continue the run: step number, time, time step, super-time-stepping state, every conserved variable, face field (outermost faces included) and passive scalar of every active cell on every grid, and with particles the grain-type attributes and all attributes of every particle. Output buffering never overflows the buffer nor drops or duplicates data. After reading, cell-centred fields are recomputed from the face fields, and every domain and grid takes over the time and time step of the mesh.',
  over=['inputs', 'configurations', 'histories'], qtext='all grid contents, sizes and hierarchies, 1D/2D/3D, any number of particles and grain types, all gas/EOS/scalar/particle/SMR/STS configurations',
  why='no regression run restarts at all; a mismatch shows only in a continued run of the specific configuration',
  files=['src/restart.c'], mech=[('writer', 'src/restart.c: dump_restart'), ('reader', 'src/restart.c: restart_grids')],
  technique='static extraction of the record streams of writer and reader from dataflow summaries and their item-by-item alignment; typestate of the output buffer',
  note=ENGINE + 'Same machine representation for writer and reader; user restart hooks are a separate matter.'),
 dict(id='C03', title='Physical boundary conditions fill every ghost zone with the prescribed state',
  statement='After the built-in reflecting, outflow, periodic or perfect-conductor boundary condition selected by its numeric flag has been applied to a face of the domain, every ghost cell and ghost face there holds exactly the value that condition prescribes (mirror image with the normal momentum and the appropriate field components sign-flipped, copy of the edge zone or boundary face, or wrap-around copy), for every conserved variable, passive scalar and magnetic face component. Interior zones and faces are not modified, and a condition enrolled by the user is never replaced.',
  over=['inputs', 'configurations'], qtext='all grid contents, all six faces, 1D/2D/3D grids of any size, any ghost-zone count, gas/EOS/scalar configurations',
  why='the regression runs use periodic and outflow faces only and pass as long as nothing crashes; ghost-zone contents are never compared',
  files=['src/bvals_mhd.c'], mech=[('per-face boundary routines', 'src/bvals_mhd.c: reflect_*, outflow_*, periodic_*, conduct_*'), ('flag dispatch', 'src/bvals_mhd.c: bvals_mhd_init')],
  technique='symbolic dataflow summaries: last-writer resolution of symbolic ghost locations against the boundary specification',
  note=ENGINE + 'Assumes active directions hold at least nghost cells and that separately allocated arrays do not overlap.'),
 dict(id='C04', title='Gas ghost-zone exchange between processes delivers the neighbour interior',
  statement='In an MPI run, after bvals_mhd returns, every ghost cell and ghost face of a grid that abuts another grid holds exactly the value of the interior zone of that neighbour which it overlaps, for every conserved variable, passive scalar and face field, corners included; the sizes, tags, partners and order of packing and unpacking agree on both sides, for every arrival order of the messages, buffers are large enough and not reused before completion, and physical boundary conditions are applied exactly on the faces without neighbour, so results do not depend on the domain decomposition.',
  over=['inputs', 'configurations', 'schedules'], qtext='all grid contents and sizes, 1D/2D/3D, all neighbour arrangements, every message completion order, gas/EOS/scalar configurations',
  why='the suite compares no ghost contents and samples one decomposition on one machine; message arrival orders cannot be forced by a test',
  files=['src/bvals_mhd.c', 'src/init_mesh.c', 'src/init_grid.c'], mech=[('exchange', 'src/bvals_mhd.c: bvals_mhd, pack_*, unpack_*'), ('buffer sizing', 'src/bvals_mhd.c: bvals_mhd_init'), ('neighbour ranks', 'src/init_grid.c: init_grid')],
  technique='symbolic dataflow summaries of pack/unpack and message events: word-for-word layout matching, typestate of requests, last-writer resolution of ghost locations',
  note=ENGINE + 'Neighbouring grids have equal transverse extents; MPI follows its standard.'),
 dict(id='C05', title='Gravitational potential: boundary conditions and ghost-zone exchange',
  statement='After the boundary conditions of the gravitational potential are set, every ghost zone of Phi holds the value its boundary flag prescribes (mirror image for reflecting, wrap-around for periodic, linear extrapolation for open boundaries) or, next to another grid in an MPI run, the overlapped interior value of the neighbour, with message sizes, tags, partners and layout agreeing on both sides in every completion order; interior values are unchanged and user-enrolled conditions are kept.',
  over=['inputs', 'configurations', 'schedules'], qtext='all potentials and grid sizes, 1D/2D/3D, all faces and neighbour arrangements, every message completion order',
  why='no regression test inspects Phi in ghost zones, and most gravity runs are periodic on one process',
  files=['src/gravity/bvals_grav.c', 'src/gravity/selfg.c'], mech=[('boundary routines', 'src/gravity/bvals_grav.c: reflect_Phi_*, periodic_Phi_*, obc_fft_Phi_*'), ('exchange', 'src/gravity/bvals_grav.c: bvals_grav, pack_Phi_*, unpack_Phi_*')],
  technique='symbolic dataflow summaries: last-writer resolution of ghost locations, message layout matching',
  note=ENGINE),
 dict(id='C07', title='Mesh refinement: restriction, flux correction and prolongation conserve',
  statement='With static mesh refinement, after each step every coarse cell covered by a finer domain holds the mean of the fine cells it contains and every covered coarse face the mean of the fine faces; every coarse cell next to a fine domain has been corrected so that the flux through the common faces is the mean of the fine fluxes (for every conserved variable and passive scalar), and every coarse face at the fine/coarse boundary so that the edge electric fields are the means of the fine ones, so that totals are conserved and the field stays divergence-free across refinement levels; for this the integrators record exactly the fluxes and electric fields used in their update for every overlap. The ghost zones of a fine domain that overlap a coarser one are filled by prolongation: the fine values average to the coarse value (momentum, density, scalars), fine face fields average to the coarse face and have its divergence, linear data are reproduced, coarse extrema are not steepened and fine data next to the boundary are used unchanged. Nothing else is modified and no array is accessed out of bounds.',
  over=['inputs', 'configurations'], qtext='all grid contents; 1D/2D/3D; fine domains inside, at the edges and corners of the root domain, several per level, three levels; gas/EOS/scalar configurations; CTU, VL, SR VL records',
  why='the regression runs with refinement only finish; totals and div B across levels are not compared, and each run has one arrangement of domains',
  files=['src/smr.c', 'src/init_grid.c', 'src/integrators'], mech=[('restriction and correction', 'src/smr.c: RestrictCorrect'), ('prolongation', 'src/smr.c: Prolongate, ProCon, ProFld'), ('overlaps', 'src/init_grid.c: init_grid'), ('flux records', 'src/integrators: CGrid/PGrid myFlx, myEMF')],
  technique='symbolic dataflow summary of grid set-up, correction and prolongation over symbolic grid contents for each mesh arrangement; polynomial comparison of final contents; identity testing of gated expressions; symbolic-index comparison of recorded fluxes',
  note=ENGINE + 'One process; small meshes of each arrangement stand for all sizes. Energy is prolonged through the pressure and is only checked for linear data. Arithmetic exact.'),
 dict(id='C08', title='Grid integrators update the gas in exactly conservative flux-difference form',
  statement='Without source terms, one step of every grid integrator (CTU and VL, Newtonian and special relativistic, Cartesian and cylindrical, 1D/2D/3D) changes the mass, momentum, energy and passive-scalar densities of each active cell exactly by minus dt times the difference of the numerical fluxes of that variable through the faces of the cell, divided by the cell size (area/volume weighted in cylindrical geometry), each face flux being computed once by the Riemann solver from the two states at that very face and used with opposite sign by both neighbours; totals therefore change only through the domain boundary. External gravity enters through potential differences across the cell, and the self-gravity momentum source is the divergence of a stress so total momentum is conserved.',
  over=['inputs', 'configurations'], qtext='all grid contents, sizes and time steps, every active cell including the first and last, all gas/EOS/scalar/geometry configurations',
  why='the regression runs only check that the code finishes; a missing or misplaced flux component for one variable, direction or configuration is invisible to them',
  files=['src/integrators'], mech=[('CTU', 'src/integrators/integrate_[123]d_ctu.c'), ('VL', 'src/integrators/integrate_[123]d_vl.c'), ('SR VL', 'src/integrators/integrate_[123]d_vl_sr.c')],
  technique='symbolic dataflow summary of the integrator; polynomial comparison of the final update with the flux-difference form; discrete variational derivative for self-gravity',
  note=ENGINE + 'Reconstruction, Riemann solver and variable conversion are opaque; arithmetic is treated as exact.'),
 dict(id='C09', title='Constrained transport keeps the magnetic field divergence-free',
  statement='Every integrator and the resistive update advance the face-centred magnetic field exactly by the discrete circulation of one single-valued edge-centred electric field, on every active face including the outermost ones, so the discrete divergence of B in every active cell is unchanged by a step; the edge electric field is consistent (equal to the common value when all contributing fluxes agree, whatever the upwind direction) and available on every edge used; after the step the cell-centred field is the mean of the two adjacent face values (or is advanced with its own flux in inactive directions), and face arrays of inactive directions equal the cell-centred field.',
  over=['inputs', 'configurations'], qtext='all fields, grid sizes and steps; CTU, VL, SR VL, Ohmic/Hall/ambipolar resistivity, Cartesian and cylindrical, 1D/2D/3D',
  why='tests never evaluate div B; an error on one edge, branch or boundary face corrupts it slowly',
  files=['src/integrators', 'src/microphysics/resistivity.c'], mech=[('face update', 'src/integrators/integrate_[23]d_*.c'), ('edge EMF', 'src/integrators: integrate_emf1_corner, integrate_emf2_corner, integrate_emf3_corner'), ('resistive update', 'src/microphysics/resistivity.c: resistivity')],
  technique='symbolic dataflow summary; polynomial identity of the discrete divergence of the update; consistency substitution in every upwind branch',
  note=ENGINE + 'Riemann solver, reconstruction opaque; arithmetic exact.'),
 dict(id='C10', title='The time step obeys the stability limit of every cell on every grid and process',
  statement='The time step chosen by new_dt never exceeds, for any active cell of any grid on any refinement level and any process and for any active direction, cour_no times the cell width over |v|+c, where c is the sound or fast magnetosonic speed of that cell evaluated with the larger of face- and cell-centred field strengths (the speed of light in special relativity; angular width in cylindrical coordinates), nor cour_no times the cell width over the speed of any particle, nor the explicit diffusion limit cour_no dx^2/(2 ndim D) of every conduction, viscosity and resistivity coefficient in use, nor twice the previous step, nor the time left until tlim while the end has not been reached. Every domain and every process uses the same step, and every grid receives it.',
  over=['inputs', 'configurations'], qtext='all grid contents and sizes, refinement hierarchies, particle sets and coefficients; gas/EOS/special-relativity/geometry/particle/diffusion/MPI configurations',
  why='a step that is too long for one direction, cell, level or process only degrades or destabilises particular runs; the regression problems are dominated by one direction on one grid',
  files=['src/new_dt.c', 'src/microphysics/new_dt_diff.c'], mech=[('CFL limit', 'src/new_dt.c: new_dt'), ('diffusive limit', 'src/microphysics/new_dt_diff.c: new_dt_diff')],
  technique='symbolic dataflow summary; bounds of MIN/MAX accumulators propagated through loop nests and compared with the required limit of a generic cell; rank-locality (taint) of the result',
  note=ENGINE + 'Super time stepping is excluded. Arithmetic exact.'),
 dict(id='C11', title='Variable conversions are exact definitions and inverses of each other',
  statement='For every state with positive density and pressure (and subluminal velocity in special relativity) the conserved variables made from it (momentum density, total energy including kinetic and magnetic parts, relativistic mass, momentum and energy densities with the magnetic contributions, and passive scalar densities) are their definitions; converting them back returns the primitive state one started from, in the one-dimensional and in the three-dimensional routines alike; where the energy is too small for a positive pressure the non-relativistic conversion returns the floor pressure TINY_NUMBER and everything else unchanged; and the fast magnetosonic speed computed from conserved and from primitive variables is the larger root of the dispersion relation. No component of a result is left unset.',
  over=['inputs', 'configurations'], qtext='all states; adiabatic/isothermal, hydrodynamics/MHD, with passive scalars; special relativistic hydrodynamics and (conserved from primitive only) MHD',
  why='the conversions are used everywhere but never compared with each other; an error in one term only shifts results of runs that excite it',
  files=['src/convert_var.c'], mech=[('conversions', 'src/convert_var.c: Cons_to_Prim, Prim_to_Cons, Cons1D_to_Prim1D, Prim1D_to_Cons1D'), ('fast speed', 'src/convert_var.c: cfast, cfast_prim')],
  technique='symbolic dataflow summary of the routines; identities between the summarised algebraic expressions decided by random interpretation (polynomial identity testing at 60 digits) on every gate path reached',
  note=ENGINE + 'Algebraic identities are decided by evaluating the summarised expressions in generic states: an algebraic function that vanishes at a generic point vanishes on its whole path. The iterative inversion of relativistic MHD is not covered. Arithmetic exact.'),
 dict(id='C12', title='Riemann solvers are consistent, symmetric and upwind',
  statement='The interface flux returned by each approximate Riemann solver (Roe, HLLE, HLLC, HLLD, FORCE, two-shock, relativistic HLLE/HLLC) equals the analytic flux of the equations when both states agree; reflecting the interface reflects the flux; exchanging or reflecting the transverse axes does the same to the flux; when all waves move one way it is the analytic flux of the upwind state, in supersonic flow to the right and to the left; Roe, HLLC, HLLD and two-shock reproduce an isolated contact (and in hydrodynamics shear) discontinuity exactly, HLLD also a rotational discontinuity; passive scalars are carried by the mass flux from the side the mass comes from; in cylindrical coordinates the total-pressure flux obeys the same rules. Every component is set on every path and stays finite for admissible states.',
  over=['inputs', 'configurations'], qtext='all pairs of admissible states; all solvers; adiabatic/isothermal, hydrodynamics/MHD, scalars, cylindrical and special relativistic configurations',
  why='each solver has many branches (supersonic, star regions, degeneracies, fallbacks); regression problems run through a few of them, in one orientation',
  files=['src/rsolvers'], mech=[('solvers', 'src/rsolvers/{roe,hlle,hllc,hlld,force,two_shock,hlle_sr,hllc_sr}.c: fluxes')],
  technique='symbolic dataflow summary of fluxes; identities and symmetries of the summarised gated algebraic expressions decided by random interpretation (identity testing at 60 digits) path by path',
  note=ENGINE + 'Algebraic identities are decided by evaluating the summarised expressions in generic states: an algebraic function that vanishes at a generic point vanishes on its whole path. The exact solver and relativistic HLLD iterate and are not covered. Arithmetic exact.'),
 dict(id='C25', title='Eigensystems: eigenvalues, left and right eigenvectors belong together',
  statement='For every state, the eigenvalues and right and left eigenvectors returned for the primitive variables satisfy A R = R diag(lambda) for the matrix A of the linearised equations of motion, L R = 1, and the eigenvalues ascend; those for the Roe averages satisfy the same with L R = 1 and decompose the flux difference of the two states (Roe property); this includes the degenerate cases of a field along or across the normal or no field at all. No matrix entry is set on some paths only.',
  over=['inputs', 'configurations'], qtext='all states, including degenerate fields; adiabatic and isothermal, hydrodynamics and MHD',
  why='reconstruction and the Roe solver project onto these vectors; an error in one entry only degrades flows in which that wave is excited',
  files=['src/reconstruction/esystem_prim.c', 'src/rsolvers/esystem_roe.c'], mech=[('primitive variables', 'src/reconstruction/esystem_prim.c: esys_prim_*'), ('Roe averages', 'src/rsolvers/esystem_roe.c: esys_roe_*')],
  technique='symbolic dataflow summary of the matrices; matrix identities between the summarised expressions decided by random interpretation (identity testing at 60 digits) on every gate path reached',
  note=ENGINE + 'Algebraic identities are decided by evaluating the summarised expressions in generic states. States in which two wave speeds nearly coincide within the tolerance of the code are not considered. Arithmetic exact.'),
 dict(id='C26', title='Reconstruction of interface states is accurate, monotone and unbiased',
  statement='For every reconstruction scheme (first order, PLM and PPM in characteristic or primitive variables, the third-order primitive variants) and data on any row of cells, the left and right interface states: equal the cell value for uniform data and next to a cell that is an extremum of every variable (Cartesian); for data varying linearly (and for the third-order schemes along a gentle parabola) are the profile at the interface, averaged with the CTU integrator over the part of the cell from which each characteristic wave reaches the interface during the step; lie between the values of the two adjacent cells when the time step vanishes; reflect with the data (in x, in a transverse axis), exchange with the transverse axes and shift with the data, first and last interface of the range included; passive scalars are advected with the flow speed. Every interface of the range il to iu+1 is set and no cell further out than the documented stencil is used.',
  over=['inputs', 'configurations'], qtext='all data; hydrodynamics and MHD, adiabatic and isothermal, CTU and VL, HLL-type and Roe fluxes, passive scalars; Cartesian and cylindrical (accuracy and reflection rules Cartesian only)',
  why='a wrong stencil, limiter branch or wave contribution only lowers accuracy or biases one direction; the regression runs still finish',
  files=['src/reconstruction'], mech=[('reconstruction', 'src/reconstruction/lr_states_*.c: lr_states')],
  technique='symbolic dataflow summary of the interface states as gated algebraic expressions; identities decided by random interpretation (identity testing at 60 digits) on every gate path reached',
  note=ENGINE + 'Algebraic identities are decided by evaluating the summarised expressions in generic states; the range of four cells stands for every range. Special relativistic reconstruction (3-velocity) is not covered. Arithmetic exact.'),
 dict(id='C13', title='Output files are named for, and contain, the data they claim',
  statement='For every mesh, grid size, number of dimensions and physics configuration: VTK, table and binary dumps hold, under each label, exactly one value per active cell (and ghost cell where ghost cells are written), in the order, number, byte order and at the positions that the header announces, and the value is the labelled conserved or primitive quantity of that cell; every variable of the gas appears; history rows hold, under each label and for each domain, the volume average over all of its grids and processes, written by one process only and within the bounds of its buffers. Every output of a level and domain goes to a file named after exactly that level and domain, and exactly the levels and domains asked for are written. data_output writes an output when its time has come (or on demand) and otherwise not, moves its time and number on once, and records in a restart file the numbers and times with which the restarted run has to continue.',
  over=['inputs', 'histories', 'configurations'], qtext='all grid contents and sizes, 1D-3D, conserved and primitive outputs, any selection of levels and domains, 8 physics configurations per writer, serial and MPI with refinement; any sequence of output times',
  why='the regression tests switch outputs off (maxout=0); nothing reads the files back, so a wrong column, a stale name or a partial sum goes unnoticed',
  files=['src/dump_vtk.c', 'src/dump_tab.c', 'src/dump_binary.c', 'src/dump_history.c', 'src/output.c', 'src/output_pdf.c', 'src/output_pgm.c', 'src/output_ppm.c', 'src/output_tab.c', 'src/output_vtk.c'],
  mech=[('full dumps', 'src/dump_{vtk,tab,binary}.c'), ('history', 'src/dump_history.c: dump_history'), ('file names and selection', 'ath_fname calls in every writer'), ('schedule', 'src/output.c: data_output')],
  technique='symbolic dataflow: each writer is summarised as the ordered stream of texts and bytes with symbolic counts, and compared with the layout its own labels and header announce',
  note=ENGINE + 'Formatting precision is not part of the property. The contents of single-variable slices (OutData1/2/3) and user-defined outputs are not covered, only their names and selection.'),
 dict(id='C19', title='Grids tile their domain: sizes, positions, storage and process numbers agree',
  statement='For every domain, division into blocks and number of processes: the blocks of a domain tile it without gap or overlap (remaining cells go to the first blocks) and are assigned to different processes; each grid has the size, displacement, bounds and cell size of its block, active index ranges that start after nghost ghost cells in every active direction, and arrays that hold all cells including ghost zones for every variable the configuration needs; the position of a cell centre or face is its distance from the lower bound of the grid, the inverse lookup finds the cell and half containing a position, cylindrical radii belong to the same cells; a process finds its own block; and the number recorded for a process in the communicator of a domain, its children or its parent is the rank the process has in that communicator.',
  over=['inputs', 'configurations'], qtext='all domain sizes and displacements; 1D-3D; blocks at 4 places of a domain; 7 physics configurations; divisions with and without rest; serial, MPI, refinement',
  why='regression runs use one process and one block; a wrong offset, extent or rank needs several blocks, a rest or three levels to show',
  files=['src/init_mesh.c', 'src/init_grid.c', 'src/cc_pos.c'], mech=[('division into blocks, communicators', 'src/init_mesh.c: init_mesh'), ('grid set-up', 'src/init_grid.c: init_grid'), ('positions', 'src/cc_pos.c'), ('own block', 'src/init_mesh.c: get_myGridIndex')],
  technique='symbolic dataflow summary: final contents of grid and block descriptors, allocation extents against index ranges, relation between stored rank and group list',
  note=ENGINE + 'The automatic choice of a decomposition (dom_decomp) and the overlap regions of refined grids in init_grid are not covered here.'),
 dict(id='C20', title='Explicit diffusion approximates the diffusion equations',
  statement='For every smooth state, cell size and number of dimensions on a Cartesian grid: one call of conduction, viscosity or resistivity changes energy, momentum, cell and face field of every active cell (the first and last included) at the rate given by the equation it solves - div(d (kappa_iso grad T + kappa_aniso b (b.grad T))) for the heat flux along and across the field, the divergence of the Navier-Stokes and Braginskii stress and of its work, -curl E and -div(E x B) for the Ohmic and ambipolar electric field - up to terms of second order in the cell size, and leaves all other variables alone.',
  over=['inputs', 'configurations'], qtext='1D-3D; 13 combinations of coefficients and physics; first, inner and last cell; generic smooth state (4 in the thorough tier); unequal cell sizes',
  why='regression tests run no diffusion problem; a wrong coefficient, cell size or missing component is masked by symmetric test problems',
  files=['src/microphysics/conduction.c', 'src/microphysics/viscosity.c', 'src/microphysics/resistivity.c'], mech=[('heat conduction', 'src/microphysics/conduction.c: conduction'), ('viscosity', 'src/microphysics/viscosity.c: viscosity'), ('resistivity', 'src/microphysics/resistivity.c: resistivity')],
  technique='symbolic dataflow summary of the update, consistency with the differential equation decided by random interpretation of the summarised expressions',
  note=ENGINE + 'Hall drift, hyper-diffusion, the energy flux in 1D resistivity and cylindrical coordinates are not covered; conservation of the same updates is decided under C08/C24, their time step under C10.'),
 dict(id='C21', title='Every step performs its operations once, on complete and current data',
  statement='On every path through the main program, for new runs and restarts and for every domain of the mesh: initial conditions, set-up of boundary conditions, refinement, gravity, diffusion, particles, outputs and work arrays happen before they are needed; ghost zones are complete (physical and exchanged boundaries, then prolongation with refinement) before the time step is computed, before outputs are written and before diffusion and integration use them, and belong to the new time (grid times renewed before boundary values); with refinement the coarse solution is restricted after the fine one has changed and recorded fluxes are applied once; each step applies cooling, each diffusion operator (with diffusivities of the current state), the integrator, orbital advection, user work and the gravity correction (with the potential of the new density) to every domain exactly once and in this order; time and step count advance once per step by the step integrated; a new time step is computed in between; no step starts at or beyond tlim or nlim or without checking for due outputs; and the run ends with user work and a forced output of everything.',
  over=['histories', 'configurations'], qtext='all paths and any number of steps of main; new runs and restarts; 16 configurations (hydro/MHD, refinement, MPI, self-gravity, diffusion with and without super time stepping, shearing box, FARGO, particles, cooling, cylindrical, relativistic)',
  why='regression runs use one domain, constant boundary conditions and no restarts; a boundary call that is missing, early or lags a step leaves plausible results',
  files=['src/main.c', 'src/microphysics/integrate_diffusion.c'], mech=[('main program', 'src/main.c: main'), ('operator-split diffusion', 'src/microphysics/integrate_diffusion.c: integrate_diff')],
  technique='typestate analysis: abstract interpretation of the call sequence of main on all paths, loops to a fixpoint, per-domain automaton',
  note='Three domains on two levels stand for any mesh; every domain has a grid on this process. Called routines are taken at their documented effect (their insides are the subject of the other properties). Cooling together with refinement is not covered.'),
 dict(id='C24', title='Integrators and explicit diffusion treat the coordinate directions alike',
  statement='Renaming the coordinate axes (exchanging two of them or rotating all three, with vector components, face fields, fluxes, electric fields and grid spacings renamed accordingly) before a step of a multidimensional Cartesian grid integrator (CTU, VL and special relativistic VL, with or without magnetic fields, static and self-gravity source terms and H-correction) or of explicit conduction, viscosity or Ohmic/ambipolar resistivity gives the renamed result of the original step, in every active cell including the first and last; operations performed for one direction (predictor, source terms, flux corrections, limiting, field update) are thus performed identically for the others. The result of a step depends only on the state at its start: no work-array element is read that the same step has not filled.',
  over=['inputs', 'configurations'], qtext='all grid contents and sizes; 2D and 3D; CTU, VL, SR VL; gas/EOS/scalar/gravity/H-correction configurations; conduction, viscosity and Ohmic/ambipolar resistivity, isotropic and anisotropic',
  why='each regression run exercises one orientation and checks only that it finishes; an error in the code for one direction is invisible to it',
  files=['src/integrators', 'src/microphysics/conduction.c', 'src/microphysics/viscosity.c', 'src/microphysics/resistivity.c'], mech=[('integrators', 'src/integrators/integrate_[23]d_{ctu,vl,vl_sr}.c'), ('diffusion', 'src/microphysics/{conduction,viscosity,resistivity}.c')],
  technique='symbolic dataflow summary of array definitions; backward definition chains compared under the axis-renaming automorphism (equivariance), definite-assignment of work arrays',
  note=ENGINE + 'Riemann solver, reconstruction and variable conversion are opaque. Arithmetic exact. Hall resistivity is deliberately operator-split by direction and is excluded.'),
]
NOT_APPLICABLE = [
 dict(id='N01', title='Solutions converge to the exact solution at the order of the scheme',
  statement='For smooth solutions the error of the computed solution against the exact one decreases with the second (third) power of the cell size for the second (third) order options.',
  over=['inputs', 'configurations'], qtext='all smooth initial data, all schemes', why='a test samples one wave at a few resolutions',
  files=['src/integrators', 'src/reconstruction'], mech=[('integrators', 'src/integrators')],
  reason='Convergence is an asymptotic statement about the composition of many steps in floating point; the local consistency conditions that can be decided from the source (exact conservation, linear exactness of reconstruction, consistency of fluxes) are decided under C08, C12 and C26, but no static argument in reach bounds the global error.'),
 dict(id='N02', title='Relativistic MHD variable inversion converges to the physical state',
  statement='The Newton iterations recovering primitive variables in relativistic MHD converge to the unique physical root for every physical conserved state, and fall back to a physical state otherwise.',
  over=['inputs'], qtext='all conserved states', why='tests sample a handful of states; failures depend on magnetisation and Lorentz factor',
  files=['src/convert_var.c'], mech=[('inversion', 'src/convert_var.c: Cons_to_Prim (special relativity, MHD)')],
  reason='The result is the limit of a data-dependent floating-point iteration whose convergence depends on the values met at run time; a static analysis sees only the loop, not its limit.'),
 dict(id='N03', title='The exact and HLLD-SR Riemann solvers iterate to the star-state pressure',
  statement='For every pair of physical states the exact Riemann solver and the relativistic HLLD solver find the star-state pressure to the stated tolerance or fall back to a more diffusive flux.',
  over=['inputs'], qtext='all pairs of states', why='tests sample a few shock tubes', files=['src/rsolvers/exact.c', 'src/rsolvers/hlld_sr.c'], mech=[('root finding', 'src/rsolvers')],
  reason='The guarantee is about convergence of numerical root finding on run-time values; only the surrounding algebra is statically decidable (C12 covers the solvers without iteration).'),
]
CAUGHT = {}
