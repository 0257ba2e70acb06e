"""Periodic table (independent source: IUPAC 2016 masses, Cordero 2008 covalent radii, as tabulated in ASE 3.x).
(symbol, mass [amu], covalent radius [Angstrom] or None); the index is the atomic number."""
ELEMENTS = [
    None,
    ('H', 1.008, 0.31),
    ('He', 4.002602, 0.28),
    ('Li', 6.94, 1.28),
    ('Be', 9.0121831, 0.96),
    ('B', 10.81, 0.84),
    ('C', 12.011, 0.76),
    ('N', 14.007, 0.71),
    ('O', 15.999, 0.66),
    ('F', 18.998403, 0.57),
    ('Ne', 20.1797, 0.58),
    ('Na', 22.989769, 1.66),
    ('Mg', 24.305, 1.41),
    ('Al', 26.981538, 1.21),
    ('Si', 28.085, 1.11),
    ('P', 30.973762, 1.07),
    ('S', 32.06, 1.05),
    ('Cl', 35.45, 1.02),
    ('Ar', 39.948, 1.06),
    ('K', 39.0983, 2.03),
    ('Ca', 40.078, 1.76),
    ('Sc', 44.955908, 1.7),
    ('Ti', 47.867, 1.6),
    ('V', 50.9415, 1.53),
    ('Cr', 51.9961, 1.39),
    ('Mn', 54.938044, 1.39),
    ('Fe', 55.845, 1.32),
    ('Co', 58.933194, 1.26),
    ('Ni', 58.6934, 1.24),
    ('Cu', 63.546, 1.32),
    ('Zn', 65.38, 1.22),
    ('Ga', 69.723, 1.22),
    ('Ge', 72.63, 1.2),
    ('As', 74.921595, 1.19),
    ('Se', 78.971, 1.2),
    ('Br', 79.904, 1.2),
    ('Kr', 83.798, 1.16),
    ('Rb', 85.4678, 2.2),
    ('Sr', 87.62, 1.95),
    ('Y', 88.90584, 1.9),
    ('Zr', 91.224, 1.75),
    ('Nb', 92.90637, 1.64),
    ('Mo', 95.95, 1.54),
    ('Tc', 97.90721, 1.47),
    ('Ru', 101.07, 1.46),
    ('Rh', 102.9055, 1.42),
    ('Pd', 106.42, 1.39),
    ('Ag', 107.8682, 1.45),
    ('Cd', 112.414, 1.44),
    ('In', 114.818, 1.42),
    ('Sn', 118.71, 1.39),
    ('Sb', 121.76, 1.39),
    ('Te', 127.6, 1.38),
    ('I', 126.90447, 1.39),
    ('Xe', 131.293, 1.4),
    ('Cs', 132.90545, 2.44),
    ('Ba', 137.327, 2.15),
    ('La', 138.90547, 2.07),
    ('Ce', 140.116, 2.04),
    ('Pr', 140.90766, 2.03),
    ('Nd', 144.242, 2.01),
    ('Pm', 144.91276, 1.99),
    ('Sm', 150.36, 1.98),
    ('Eu', 151.964, 1.98),
    ('Gd', 157.25, 1.96),
    ('Tb', 158.92535, 1.94),
    ('Dy', 162.5, 1.92),
    ('Ho', 164.93033, 1.92),
    ('Er', 167.259, 1.89),
    ('Tm', 168.93422, 1.9),
    ('Yb', 173.054, 1.87),
    ('Lu', 174.9668, 1.87),
    ('Hf', 178.49, 1.75),
    ('Ta', 180.94788, 1.7),
    ('W', 183.84, 1.62),
    ('Re', 186.207, 1.51),
    ('Os', 190.23, 1.44),
    ('Ir', 192.217, 1.41),
    ('Pt', 195.084, 1.36),
    ('Au', 196.96657, 1.36),
    ('Hg', 200.592, 1.32),
    ('Tl', 204.38, 1.45),
    ('Pb', 207.2, 1.46),
    ('Bi', 208.9804, 1.48),
    ('Po', 208.98243, 1.4),
    ('At', 209.98715, 1.5),
    ('Rn', 222.01758, 1.5),
    ('Fr', 223.01974, 2.6),
    ('Ra', 226.02541, 2.21),
    ('Ac', 227.02775, 2.15),
    ('Th', 232.0377, 2.06),
    ('Pa', 231.03588, 2),
    ('U', 238.02891, 1.96),
    ('Np', 237.04817, 1.9),
    ('Pu', 244.06421, 1.87),
    ('Am', 243.06138, 1.8),
    ('Cm', 247.07035, 1.69),
    ('Bk', 247.07031, None),
    ('Cf', 251.07959, None),
    ('Es', 252.083, None),
    ('Fm', 257.09511, None),
    ('Md', 258.09843, None),
    ('No', 259.101, None),
    ('Lr', 262.11, None),
    ('Rf', 267.122, None),
    ('Db', 268.126, None),
    ('Sg', 271.134, None),
    ('Bh', 270.133, None),
    ('Hs', 269.1338, None),
    ('Mt', 278.156, None),
    ('Ds', 281.165, None),
    ('Rg', 281.166, None),
    ('Cn', 285.177, None),
    ('Nh', 286.182, None),
    ('Fl', 289.19, None),
    ('Mc', 289.194, None),
    ('Lv', 293.204, None),
    ('Ts', 293.208, None),
    ('Og', 294.214, None),
]
