REGISTRY = {'C01': 'c01_restart', 'C03': 'c03_bc', 'C04': 'c04_halo', 'C05': 'c05_grav', 'C07': 'c07_smr', 'C08': 'c08_cons', 'C09': 'c09_ct', 'C10': 'c10_dt', 'C11': 'c11_convert', 'C12': 'c12_riemann', 'C13': 'c13_output', 'C19': 'c19_mesh', 'C20': 'c20_diffusion', 'C21': 'c21_main', 'C24': 'c24_iso', 'C25': 'c25_eigen', 'C26': 'c26_recon'}
