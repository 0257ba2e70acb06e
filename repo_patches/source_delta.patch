From 90fff44760135d02bf2dbe82e6309a0e4f399355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 01/61] fix: do not write parser specific units into the
 class-level default_units

PwMD/CPMD/CP2K/LAMMPS parsers updated the dict shared by all parser classes,
so constructing one parser changed the unit factors of others.
---
 src/pwtools/parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 84d7fb3..c1bbd96 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -876,6 +876,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def __init__(self, filename=None, use_alat=True, **kwds):
         # update default_units *before* calling base class' __init__, where
         # self.units is assembled from default_units
+        self.default_units = dict(self.default_units)
         self.default_units.update({'time': constants.tryd / constants.fs})
         TrajectoryFileParser.__init__(self, filename=filename, **kwds)
         self.attr_lst = [\
@@ -1467,6 +1468,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         ----------
         filename : file to parse
         """
+        self.default_units = dict(self.default_units)
         self.default_units.update(\
             {'time': constants.thart / constants.fs, # thart -> fs
              'velocity': Bohr / Ang * fs / thart,    # Bohr / thart -> Ang / fs
@@ -1822,6 +1824,7 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
     md,print_level low".
     """
     def __init__(self, *args, **kwds):
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4 # bar -> GPa
         self.default_units['velocity'] = Bohr/thart / Ang*fs # Bohr/thart -> Ang/fs
         TrajectoryFileParser.__init__(self, *args, **kwds)
@@ -2210,6 +2213,7 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             where lammps echos the input script. `symbols` is build from the
             ``type`` column in `dumpfilename`.
         """
+        self.default_units = dict(self.default_units)
         self.default_units['stress'] = 1e-4     # bar -> GPa
         self.default_units['velocity'] = fs/ps  # Ang/ps -> Ang/fs
         self.default_units['time'] = ps/fs      # ps -> fs
-- 
2.43.0


From d92c68a1998bdbc8ad44cdbaa79941042d45d7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 02/61] fix: calculators: do not update the class-level
 default_parameters

---
 src/pwtools/calculators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/calculators.py b/src/pwtools/calculators.py
index 64f4fc2..0895d5f 100644
--- a/src/pwtools/calculators.py
+++ b/src/pwtools/calculators.py
@@ -103,7 +103,7 @@ class CalculatorBase:
             if k not in allowed_keys:
                 raise Exception("key '%s' not allowed, only: \n%s" %(k,
                                 str(allowed_keys)))
-        self.parameters = self.default_parameters
+        self.parameters = dict(self.default_parameters)
         self.parameters.update(kwds)
         self.__dict__.update(self.parameters)
 
-- 
2.43.0


From 5154c3705b6b5736ab7c628ce54a8ebec93b8716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 03/61] fix: batch.Calculation: do not append the machine
 template to the caller's list

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 627a315..f007bfb 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -299,7 +299,7 @@ class Calculation:
             'calc_foo/0/')
         """
         self.machine = machine
-        self.templates = templates
+        self.templates = list(templates)
         self.params = params
         self.calc_dir = calc_dir
         self.sql_record = dict((sqlentry.key, sqlentry) \
-- 
2.43.0


From b512e97ebb182f5fd07fb82e6e42a16c38bda60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 04/61] fix: crys.rpdf: do not modify the caller's trajs and
 amask lists

---
 src/pwtools/crys.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index b035093..611ab02 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1483,10 +1483,11 @@ def rpdf(trajs, dr=0.05, rmax='auto', amask=None, tmask=None,
     if type(trajs) != type([]):
         trajs = [trajs]
     if len(trajs) == 1:
-        trajs *= 2
+        trajs = trajs * 2
         dup_trajs = True
+    amask = list(amask)
     if len(amask) == 1:
-        amask *= 2
+        amask = amask * 2
     trajs = list(map(struct2traj, trajs))
     assert len(trajs) == 2, "len(trajs) != 2"
     assert len(amask) == 2, "len(amask) != 2"
-- 
2.43.0


From 6f4a57fb8c71008f141901672eccb6aaa0e3ba20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 05/61] fix: rbf.hyperopt.fit_opt: do not pop entries from the
 caller's opt_kwds

---
 src/pwtools/rbf/hyperopt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pwtools/rbf/hyperopt.py b/src/pwtools/rbf/hyperopt.py
index d7dc38b..6499e29 100644
--- a/src/pwtools/rbf/hyperopt.py
+++ b/src/pwtools/rbf/hyperopt.py
@@ -218,6 +218,7 @@ def fit_opt(
         points, values, cv=cv, cv_kwds=cv_kwds, rbf_kwds=rbf_kwds
     )
     _get_p0 = lambda: estimate_p(points)
+    opt_kwds = copy.copy(opt_kwds)
     disp = opt_kwds.pop("disp", False)
     if method == "fmin":
         if what == "p":
-- 
2.43.0


From b4980dea641bb98aa2982f8e4a365e1ea3fbf0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 06/61] fix: thermo.Gibbs.calc_G: do not write results into the
 caller's dict

---
 src/pwtools/thermo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index 61a544c..fec7b00 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -715,6 +715,8 @@ class Gibbs:
         self._set_fitax()
         if ret is None:
             ret = self.calc_F(calc_all=calc_all)
+        else:
+            ret = dict(ret)
         ret['/T/P' + self.axes_prefix + '/G'] = np.empty((self.nT,self.nP,self.npoints), dtype=float)
         for tidx in range(self.nT):
             for pidx in range(self.nP):
-- 
2.43.0


From d9860649dedf21a735949253aa57c25aca3641dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 07/61] fix: parsers: get_cont() starts from a new container on
 every call

The second call refilled the first container with raw data but did not apply
the units again, i.e. it returned (and changed the first result to) raw units.
---
 src/pwtools/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index c1bbd96..46c6a32 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -292,6 +292,9 @@ class StructureFileParser(UnitsHandler):
         """
         if not self.parse_called:
             self.parse()
+        # always start from a new container: units must be applied to the raw
+        # parsed data, also if we are called more than once
+        self.cont = self.Container(set_all_auto=False, units=self.units)
         for attr_name in self.cont.attr_lst:
             setattr(self.cont, attr_name, getattr(self, attr_name))
         if auto_calc:
-- 
2.43.0


From 2e3ccd5eb109f1a999915fc95c52934d82b785ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 08/61] fix: apply units also to the input attributes pressure
 and volume

---
 src/pwtools/crys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 611ab02..077552b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2135,7 +2135,7 @@ class UnitsHandler(FlexibleGetters):
         self.units_map = \
             {'length':      ['cell', 'coords', 'abc'],
              'energy':      ['etot', 'ekin'],
-             'stress':      ['stress'],
+             'stress':      ['stress', 'pressure'],
              'forces':      ['forces'],
              'temperature': ['temperature'],
              'velocity':    ['velocity'],
@@ -2163,6 +2163,9 @@ class UnitsHandler(FlexibleGetters):
             else:
                 raise Exception("self.cryst_const has ndim != [1,2]")
             self.cryst_const = cc
+        # length**3, therefore also not in units_map
+        if self.units['length'] != 1.0 and self.is_set_attr('volume'):
+            self.volume = self.volume * self.units['length']**3
         for unit, lst in self.units_map.items():
             if self.units[unit] != 1.0:
                 for attr_name in lst:
-- 
2.43.0


From b2ee97dc8411becbe739c502ab22999cee89e0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 09/61] fix: parse: PwSCFOutputFile: missing natoms or force
 blocks give None

---
 src/pwtools/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 46c6a32..d8b122c 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -706,6 +706,8 @@ class PwSCFOutputFile(StructureFileParser):
                 cmd = "grep 'atom.*type.*force' %s \
                     | %s '{print $7\" \"$8\" \"$9}'" %(self.filename, AWK)
                 arr2d = arr2d_from_txt(com.backtick(cmd))
+                if arr2d is None:
+                    return None
                 nlines = arr2d.shape[0]
                 # nlines_block = number of force lines per step = N*natoms
                 nlines_block = nlines // nstep
@@ -731,13 +733,16 @@ class PwSCFOutputFile(StructureFileParser):
         precision.
         """
         verbose("getting start coords")
-        self.try_set_attr('natoms')
+        if not self.check_set_attr('natoms'):
+            return None
         natoms = self.natoms
         # coords
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               sed -re 's/.*\((.*)\)/\1/g'" \
               %(natoms, self.filename, natoms)
         coords = arr2d_from_txt(com.backtick(cmd))
+        if coords is None:
+            return None
         cmd = r"egrep -m1 -A%i 'site.*atom.*positions.*units.*\)' %s | tail -n%i | \
               %s '{print $2}'" \
               %(natoms, self.filename, natoms, AWK)
-- 
2.43.0


From 08623054e7962c1b0aa99215f4bac67960ffbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 10/61] fix: parse: PwMDOutputFile.get_forces,
 PwVCMDOutputFile: None if nothing is found

---
 src/pwtools/parse.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index d8b122c..b382be6 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1133,7 +1133,7 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
         """[Ry / Bohr] """
         if self.check_set_attr('natoms'):
             forces = self._match_nstep(self.raw_return('forces'))
-            return forces[:,:self.natoms,:]
+            return None if forces is None else forces[:,:self.natoms,:]
         else:
             return None
 
@@ -1162,18 +1162,24 @@ class PwVCMDOutputFile(PwMDOutputFile):
 
     def get_ekin(self):
         verbose("getting ekin")
-        self.try_set_attr('_datadct')
-        return self._datadct['ekin']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['ekin']
+        else:
+            return None
 
     def get_econst(self):
         verbose("getting econst")
-        self.try_set_attr('_datadct')
-        return self._datadct['econst']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['econst']
+        else:
+            return None
 
     def get_temperature(self):
         verbose("getting temperature")
-        self.try_set_attr('_datadct')
-        return self._datadct['temperature']
+        if self.check_set_attr('_datadct'):
+            return self._datadct['temperature']
+        else:
+            return None
 
 
 class CpmdSCFOutputFile(StructureFileParser):
-- 
2.43.0


From 98e1769e22947171b85aef7268990f63909eba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 11/61] fix: parse: CPMD parsers: missing natoms or empty
 blocks give None

---
 src/pwtools/parse.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index b382be6..5b59977 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1266,12 +1266,15 @@ class CpmdSCFOutputFile(StructureFileParser):
         if os.path.exists(fn):
             cmd = "grep -A3 'CELL MATRIX (BOHR)' %s | tail -n3" %fn
             cell = arr2d_from_txt(com.backtick(cmd))
-            self.assert_set_attr('natoms')
-            cmd = "grep -A%i 'SCALED ATOMIC COORDINATES' %s | tail -n%i" \
-                  %(self.natoms, fn, self.natoms)
-            arr = arr2d_from_txt(com.backtick(cmd), dtype=str)
-            coords_frac = arr[:,:3].astype(np.float64)
-            symbols = arr[:,3].tolist()
+            coords_frac = None
+            symbols = None
+            if self.check_set_attr('natoms'):
+                cmd = "grep -A%i 'SCALED ATOMIC COORDINATES' %s | tail -n%i" \
+                      %(self.natoms, fn, self.natoms)
+                arr = arr2d_from_txt(com.backtick(cmd), dtype=str)
+                if arr is not None:
+                    coords_frac = arr[:,:3].astype(np.float64)
+                    symbols = arr[:,3].tolist()
             return {'coords_frac': coords_frac,
                     'symbols': symbols,
                     'cell': cell}
@@ -1582,7 +1585,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             have_file = True
             ncols = 7
             fn = fn_tr
-        if have_file:
+        if have_file and self.check_set_attr('natoms'):
             cmd = "grep -c -v '<<<<' %s" %fn
             nlines = int_from_txt(com.backtick(cmd))
             nstep = float(nlines) / float(self.natoms)
@@ -1627,7 +1630,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             arr = traj_from_txt(com.backtick(cmd),
                                 shape=(nstep,3,ncols),
                                 axis=self.timeaxis)
-            return arr[...,:3]
+            return None if arr is None else arr[...,:3]
         else:
             if self.check_set_attr('_cell_2d'):
                 return self._cell_2d
-- 
2.43.0


From 74ccba1fac1bff7eb5a9f3d85d71bbfb256aad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 12/61] fix: parse: Cp2kSCFOutputFile.get_stress: None if there
 is no stress tensor

---
 src/pwtools/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 5b59977..6de19af 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1832,8 +1832,11 @@ class Cp2kSCFOutputFile(StructureFileParser):
         cmd = r"grep -A5 'STRESS TENSOR.*GPa' %s | egrep -v 'X[ ]+Y[ ]+Z' | \
             egrep '^[ ]+(X|Y|Z)'" %self.filename
         ret = com.backtick(cmd).strip()
-        arr = np.array([x.split() for x in ret.splitlines()])
-        return arr[:,1:].astype(float)
+        if ret != '':
+            arr = np.array([x.split() for x in ret.splitlines()])
+            return arr[:,1:].astype(float)
+        else:
+            return None
 
 
 class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
-- 
2.43.0


From 702a7f38788d1d23ccff425cfc9096c80cb7e17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 13/61] fix: parse: Lammps parsers: None for all thermo data if
 no thermo block is found

---
 src/pwtools/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 6de19af..9523a84 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -2304,6 +2304,8 @@ class LammpsTextMDOutputFile(TrajectoryFileParser):
             cmd = r"sed -nre '/^Step/,/^Loop/p' %s | \
                     egrep -v 'Step|Loop'" %self.filename
             arr = arr2d_from_txt(com.backtick(cmd))
+            if arr is None:
+                return None
             return dict((x, arr[:,ii]) for ii,x in enumerate(header))
         else:
             return None
-- 
2.43.0


From df7ec5e843fcb4d0369c781400e925dd77c54b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 14/61] fix: parse: PDBFile: None for quantities which are not
 in the file

---
 src/pwtools/parse.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 9523a84..c259799 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -507,14 +507,16 @@ class PDBFile(StructureFileParser):
         pat = r'(ATOM|HETATM)[\s0-9]+([A-Za-z]+)[\sa-zA-Z0-9]*' + \
             r'[\s0-9]+((\s+'+ regex.float_re + r'){3}?)'
         # array of string type
-        return np.array([[m.group(2)] + m.group(3).split() for m in \
-                         re.finditer(pat,self.txt)])
+        data = [[m.group(2)] + m.group(3).split() for m in \
+                re.finditer(pat,self.txt)]
+        return np.array(data) if len(data) > 0 else None
 
     def get_symbols(self):
         # list of strings (system:nat,)
         # Fix atom names, e.g. "AL" -> Al. Note that this is only needed b/c we
         # use the "wrong" column "Atom name".
-        self.try_set_attr('_coords_data')
+        if not self.check_set_attr('_coords_data'):
+            return None
         symbols = []
         for sym in self._coords_data[:,0]:
             if len(sym) == 2:
@@ -524,7 +526,8 @@ class PDBFile(StructureFileParser):
         return symbols
 
     def get_coords(self):
-        self.try_set_attr('_coords_data')
+        if not self.check_set_attr('_coords_data'):
+            return None
         # float array, (system:nat, 3)
         return self._coords_data[:,1:].astype(float)
 
@@ -535,6 +538,8 @@ class PDBFile(StructureFileParser):
         #          a        b        c       alpha  beta   gamma  |space grp|  z-value
         pat = r'CRYST1\s+((\s+' + regex.float_re + r'){6}).*'
         match = re.search(pat, self.txt)
+        if match is None:
+            return None
         return np.array(match.group(1).split()).astype(float)
 
 
-- 
2.43.0


From 93230e2ba791393a2d5cdd7629b2d2fc82b088b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:24 +0000
Subject: [PATCH 15/61] fix: parse: CifFile: cryst_const is None if the file
 has no cell parameters

---
 src/pwtools/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index c259799..c8d6df9 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -375,6 +375,9 @@ class CifFile(StructureFileParser):
         # gamma = angbe between a,b
         self.try_set_attr('_cif_block')
         cif_dct = {}
+        if '_cell_length_a' not in self._cif_block or \
+           '_cell_angle_alpha' not in self._cif_block:
+            return None
         for x in ['a', 'b', 'c']:
             what = '_cell_length_' + x
             cif_dct[x] = self.cif_str2float(self._cif_block[what])
@@ -426,7 +429,8 @@ class CifFile(StructureFileParser):
         return None
 
     def get_cryst_const(self):
-        self.try_set_attr('_cif_dct')
+        if not self.check_set_attr('_cif_dct'):
+            return None
         return np.array([self._cif_dct[key] for key in \
             ['a', 'b', 'c', 'alpha', 'beta', 'gamma']])
 
-- 
2.43.0


From cef951774332cc29dd9b158ddc90d0fef174c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:45 +0000
Subject: [PATCH 16/61] fix: parse: CpmdMDOutputFile: no assertion if GEOMETRY
 is missing

---
 src/pwtools/parse.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index c8d6df9..15be107 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1579,7 +1579,6 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         #        thart = Hartree time =  0.024189 fs
         # FTRAJECTORY extra:
         #   7-9: x,y,z cartesian forces [Ha / Bohr]
-        self.assert_set_attr('natoms')
         have_file = False
         have_forces = False
         fn_tr = os.path.join(self.basedir, 'TRAJECTORY')
-- 
2.43.0


From f0267194d7b5817abe7d72a6b7f4928f46f35bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 17/61] fix: bv_method in the error messages of ExternEOS is an
 attribute

---
 src/pwtools/eos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index d9642f8..bd40741 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -398,7 +398,7 @@ class ExternEOS(FlexibleGetters):
             vv = self.ev[:,0]
             return np.array([vv, vv * self.spl_ev(vv, der=2) * fac]).T
         else:
-            raise Exception("unknown bv_method: '%s'" %bv_method)
+            raise Exception("unknown bv_method: '%s'" %self.bv_method)
 
     def get_min(self, behave='new'):
         """
@@ -431,7 +431,7 @@ class ExternEOS(FlexibleGetters):
         elif self.bv_method == 'ev':
             v0 = self.spl_ev.get_min()
         else:
-            raise Exception("unknown bv_method: '%s'" %bv_method)
+            raise Exception("unknown bv_method: '%s'" %self.bv_method)
         p0 = self.spl_pv(v0)
         e0 = self.spl_ev(v0)
         b0 = self.spl_bv(v0)
-- 
2.43.0


From 243192b2aff712d8ea9acbddd0f9dc18bac30229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 18/61] fix: struct_or_traj in the error message of ReadFactory
 is an attribute

---
 src/pwtools/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index 5f2a0cb..dff5612 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -375,7 +375,7 @@ class ReadFactory:
         elif self.struct_or_traj == 'traj':
             return self.parser(filename, **kwds).get_traj()
         else:
-            raise Exception("unknown struct_or_traj: %s" %struct_or_traj)
+            raise Exception("unknown struct_or_traj: %s" %self.struct_or_traj)
 
 
 read_cif = ReadFactory(parser=parse.CifFile,
-- 
2.43.0


From df96e34d7d5660015d8ef1a932604e1048bec76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 19/61] fix: case in the error message of Gibbs._fit_opt_store
 is an attribute

---
 src/pwtools/thermo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/thermo.py b/src/pwtools/thermo.py
index fec7b00..898a81c 100644
--- a/src/pwtools/thermo.py
+++ b/src/pwtools/thermo.py
@@ -579,7 +579,7 @@ class Gibbs:
             raise ValueError("Fits for 3d-G not yet supported, only fake-1d where "
                              "case='1d' but axes_flat.shape[1] > 1.")
         else:
-            raise ValueError(f"Unknown {case=}")
+            raise ValueError(f"Unknown {self.case=}")
 
     def _set_not_calc_none(self, ret, prfx='/T/P'):
         """We know that the stuff below was not calculated, so set them to
-- 
2.43.0


From 4e9d718e7cf646861280b302a3e86954c9a5e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 20/61] fix: FIRFilter: undefined N for mode bandstop, firwin()
 takes fs instead of nyq

---
 src/pwtools/signal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 853955f..952b113 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -950,11 +950,12 @@ class FIRFilter:
         elif mode == 'bandstop':
             pass_zero = True
             assert len(cutoff) == 2
-            if N % 2 == 0:
-                N += 1
+            # no zero response at the Nyquist frequency possible for even ntaps
+            if self.ntaps % 2 == 0:
+                self.ntaps += 1
         else:
             raise Exception('unknown mode')
-        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, nyq=nyq,
+        self.taps = firwin(numtaps=self.ntaps, cutoff=cutoff, window=self.window, fs=2.0*nyq,
                            pass_zero=pass_zero, width=width)
         w,h = freqz(self.taps)
         self.w = (w/np.pi)*nyq
-- 
2.43.0


From 35f2999f59086416b5fa00763bfbd0718167b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 21/61] fix: plot_dis: plot and return axdos without
 special_points_path

---
 src/pwtools/kpath.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 4dc1ac9..2310091 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -177,15 +177,15 @@ def plot_dis(path_norm, freqs, special_points_path=None,
         ax.set_xticklabels(labels)
         ax.set_xlim(path_norm[0], path_norm[-1])
         ax.set_ylabel("frequency (cm$^{-1}$)")
-        if dos is not None:
-            # http://matplotlib.org/examples/axes_grid/scatter_hist.html
-            from mpl_toolkits.axes_grid1 import make_axes_locatable
-            divider = make_axes_locatable(ax)
-            axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
-            axdos.plot(dos[:,1], dos[:,0], 'b')
-            mpl.plt.setp(axdos.get_yticklabels(), visible=False)
-            mpl.plt.setp(axdos.get_xticklabels(), visible=False)
-            axdos.xaxis.set_tick_params(size=0)
-        else:
-            axdos = None
+    if dos is not None:
+        # http://matplotlib.org/examples/axes_grid/scatter_hist.html
+        from mpl_toolkits.axes_grid1 import make_axes_locatable
+        divider = make_axes_locatable(ax)
+        axdos = divider.append_axes("right", 1.2, pad=0.1, sharey=ax)
+        axdos.plot(dos[:,1], dos[:,0], 'b')
+        mpl.plt.setp(axdos.get_yticklabels(), visible=False)
+        mpl.plt.setp(axdos.get_xticklabels(), visible=False)
+        axdos.xaxis.set_tick_params(size=0)
+    else:
+        axdos = None
     return fig, ax, axdos
-- 
2.43.0


From 7173f48264156eab34053a4db0943264ebd92bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 22/61] fix: FileTemplate.write: wrong number of format
 arguments for copied files

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index f007bfb..47ec13b 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -227,7 +227,7 @@ class FileTemplate:
         tgt = pj(calc_dir, self.basename)
         verbose("write: %s" %tgt)
         if copy_only:
-            verbose("write: ignoring input, just copying file to %s"
+            verbose("write: ignoring input, just copying file %s to %s"
                     %(self.filename, tgt))
             shutil.copy(self.filename, tgt)
         else:
-- 
2.43.0


From 0df5526a3f95f292399adfb443afc559e616bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:45 +0000
Subject: [PATCH 23/61] fix: toslice, tobool and ffloat accept str

---
 src/pwtools/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index b51c19a..e33cdae 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -88,7 +88,7 @@ def toslice(val):
     >>> toslice('1:5')
     slice(1, 5, None)
     """
-    assert_cond(isinstance(val, bytes), "input must be string")
+    assert_cond(isinstance(val, str), "input must be string")
     # XXX This is fixed in numpy 1.5.1:
     #   https://github.com/numpy/numpy/commit/9089036b
     # np.s_ doesn't work for slices starting at end, like
@@ -132,7 +132,7 @@ def tobool(val):
             return False
     got_str = False
     got_int = False
-    if isinstance(val, bytes):
+    if isinstance(val, str):
         got_str = True
         val = val.lower()
     elif isinstance(val, int):
@@ -167,7 +167,7 @@ def ffloat(st):
     -------
     float
     """
-    assert_cond(isinstance(st, bytes), "`st` must be string")
+    assert_cond(isinstance(st, str), "`st` must be string")
     st = st.lower()
     if not 'd' in st:
         return float(st)
-- 
2.43.0


From 5187520266c163f5b9a312e90cf3394bb0c53bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:39 +0000
Subject: [PATCH 24/61] fix: cell2cc result independent of the memory alignment
 of the cell

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 077552b..3a1aded 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -159,7 +159,9 @@ def cell2cc(cell):
     %(cryst_const_doc)s,
         unit: [a]**3
     """
-    cell = np.asarray(cell)
+    # Copy: the last bit of the dot products in angle() depends on the memory
+    # alignment, cells cut out of a 3d array must give the same cryst_const
+    cell = np.array(cell)
     assert_cond(cell.shape == (3,3), "cell must be (3,3) array")
     cryst_const = np.empty((6,), dtype=float)
     # a = |a|, b = |b|, c = |c|
-- 
2.43.0


From 1a609820ccb8ef86c44d6765d5c7a158b71be14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 25/61] fix: _flib.solve keeps its input matrix

---
 src/_ext_src/flib.f90 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 5d92032..673d1da 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -541,12 +541,15 @@ subroutine solve(aa, bb, nn, xx)
     double precision, intent(in) :: aa(nn,nn), bb(nn)
     double precision, intent(out) :: xx(nn)
     integer :: ipiv(nn), info
+    double precision :: lu(nn,nn)
 
     ! Make a copy of bb b/c that will be overwritten in dgesv(). Not sure if
     ! this is the Fortran way to do it. But the Pyhon wrapper works and doesn't
     ! overwrite `bb`.
     xx(:) = bb(:)
-    call dgesv(nn, 1, aa, nn, ipiv, xx, nn, info)
+    ! dgesv() overwrites the matrix with its LU factors, don't do that with `aa`
+    lu(:,:) = aa(:,:)
+    call dgesv(nn, 1, lu, nn, ipiv, xx, nn, info)
 end subroutine solve
 
 
-- 
2.43.0


From 4b9d352f629e0efbaaaf3c8c7054173c7765325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:43 +0000
Subject: [PATCH 26/61] fix: _dcd.open_file assigns the unit it returns

---
 src/_ext_src/dcd.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_ext_src/dcd.f90 b/src/_ext_src/dcd.f90
index 5da8ed7..4a2af59 100644
--- a/src/_ext_src/dcd.f90
+++ b/src/_ext_src/dcd.f90
@@ -19,7 +19,7 @@ subroutine open_file(filename, unt)
     character(len=1024), intent(in) :: filename
     integer, intent(out) :: unt
     integer :: iost
-    open(unit=unt, file=trim(filename), status='old', form='unformatted', &
+    open(newunit=unt, file=trim(filename), status='old', form='unformatted', &
          action='read', iostat=iost)
     if (iost /= 0) then
         write(*,*) "open_file: error when opening file: '", trim(filename), &
-- 
2.43.0


From 8d8b050f4fa542162d984eeda4d0b6a139e9076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 27/61] fix: cart2frac keeps its input cell

---
 src/_ext_src/flib.f90 | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/_ext_src/flib.f90 b/src/_ext_src/flib.f90
index 673d1da..f46c0ec 100644
--- a/src/_ext_src/flib.f90
+++ b/src/_ext_src/flib.f90
@@ -571,11 +571,13 @@ subroutine cart2frac(coords, cell, natoms, coords_frac)
     integer :: natoms, ipiv(3), info
     double precision, intent(in) :: coords(natoms, 3), cell(3,3)
     double precision, intent(out) :: coords_frac(natoms, 3)
-    double precision :: wrk(3,natoms)
+    double precision :: wrk(3,natoms), lu(3,3)
 
-    ! solve for all `natoms` RHS at once
+    ! solve for all `natoms` RHS at once, dgesv() overwrites the matrix, so pass
+    ! a copy (transpose(cell) as argument may be written back to `cell`)
     wrk = transpose(coords)
-    call dgesv(3, natoms, transpose(cell), 3, ipiv, wrk, 3, info)
+    lu = transpose(cell)
+    call dgesv(3, natoms, lu, 3, ipiv, wrk, 3, info)
     coords_frac = transpose(wrk)
 end subroutine cart2frac
 
-- 
2.43.0


From 35621453751090dee69781371546e60df1062231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 28/61] fix: open_and_close reads gzip files as text

---
 src/pwtools/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 1d29038..540fd2c 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,7 +47,7 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'r')
+            fd = _open(fn, 'rt')
             # Files opened with gzip don't have a 'name' attr.
             if not hasattr(fd, 'name'):
                 fd.name = os.path.abspath(os.path.expanduser(fn))
-- 
2.43.0


From f740ecee41146e88be2c8c0333dd4c1e647a6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 29/61] fix: common, io, base: close files also when reading or
 writing fails

---
 src/pwtools/base.py   |  6 ++++--
 src/pwtools/common.py | 18 ++++++++----------
 src/pwtools/eos.py    |  2 +-
 src/pwtools/io.py     | 15 +++++++--------
 4 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/pwtools/base.py b/src/pwtools/base.py
index 539d1cd..b20b10d 100644
--- a/src/pwtools/base.py
+++ b/src/pwtools/base.py
@@ -162,7 +162,8 @@ class FlexibleGetters:
             dr = os.path.dirname(dump_filename)
             if dr != '':
                 common.makedirs(dr)
-        pickle.dump(self, open(dump_filename, 'wb'), protocol=2)
+        with open(dump_filename, 'wb') as fd:
+            pickle.dump(self, fd, protocol=2)
 
     def load(self, dump_filename):
         """Load pickled object.
@@ -185,7 +186,8 @@ class FlexibleGetters:
                        DeprecationWarning)
         # this does not work:
         #   self = pickle.load(...)
-        self.__dict__.update(pickle.load(open(dump_filename, 'rb')).__dict__)
+        with open(dump_filename, 'rb') as fd:
+            self.__dict__.update(pickle.load(fd).__dict__)
 
     def is_set_attr(self, attr):
         """Check if self has the attribute self.<attr> and if it is _not_ None.
diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index e33cdae..90e4c12 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -344,9 +344,8 @@ def get_filename(fh):
 
 def file_read(fn):
     """Open file with name `fn`, return open(fn).read()."""
-    fd = open(fn, 'r')
-    txt = fd.read()
-    fd.close()
+    with open(fn, 'r') as fd:
+        txt = fd.read()
     return txt
 
 
@@ -354,16 +353,14 @@ def file_write(fn, txt):
     """Write string `txt` to file with name `fn`. No check is made wether the
     file exists and/or is nonempty. Yah shalleth know whath thy is doingth.
     shell$ echo $string > $file """
-    fd = open(fn, 'w')
-    fd.write(txt)
-    fd.close()
+    with open(fn, 'w') as fd:
+        fd.write(txt)
 
 
 def file_readlines(fn):
     """Open file with name `fn`, return open(fn).readlines()."""
-    fd = open(fn, 'r')
-    lst = fd.readlines()
-    fd.close()
+    with open(fn, 'r') as fd:
+        lst = fd.readlines()
     return lst
 
 
@@ -726,7 +723,8 @@ def cpickle_load(filename):
     :func:`~pwtools.io.read_pickle` instead."""
     warnings.warn("cpickle_load() is deprcated, use io.read_pickle() instead",
                    DeprecationWarning)
-    return pickle.load(open(filename, 'rb'))
+    with open(filename, 'rb') as fd:
+        return pickle.load(fd)
 
 #-----------------------------------------------------------------------------
 # aliases
diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index bd40741..0aea5a9 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -561,7 +561,7 @@ class ElkEOSFit(ExternEOS):
         out = common.backtick('cd %s && %s' %(self.dir, self.app_basename))
         if self.verbose:
             print(out)
-            print((open(os.path.join(self.dir,'PARAM.OUT')).read()))
+            print(common.file_read(os.path.join(self.dir,'PARAM.OUT')))
         # Remove normalization on natoms. See .../eos/output.f90:
         # fitev: [volume [Bohr^3] / natoms, energy [Ha] / natoms]
         # fitpv: [volume [Bohr^3] / natoms, pressure [GPa]]
diff --git a/src/pwtools/io.py b/src/pwtools/io.py
index dff5612..c64ab45 100644
--- a/src/pwtools/io.py
+++ b/src/pwtools/io.py
@@ -277,10 +277,9 @@ def write_h5(fn, dct, **kwds):
     >>> write_h5('file.h5', old, mode='w')
     """
     mode = kwds.pop('mode') if 'mode' in kwds else 'a'
-    fh = h5py.File(fn, mode=mode, **kwds)
-    for key,val in dct.items():
-        fh[key] = val
-    fh.close()
+    with h5py.File(fn, mode=mode, **kwds) as fh:
+        for key,val in dct.items():
+            fh[key] = val
 
 
 def read_h5(fn):
@@ -299,15 +298,14 @@ def read_h5(fn):
     >>> read_h5('foo.h5').keys()
     ['/a/b/d1', '/a/b/d2', '/a/c/d3', '/x/y/z']
     """
-    fh = h5py.File(fn, mode='r')
     dct = {}
     def get(name, obj):
         if isinstance(obj, h5py.Dataset):
             _name = name if name.startswith('/') else '/'+name
             val = obj[()]
             dct[_name] = obj.asstr()[()] if isinstance(val, bytes) else val
-    fh.visititems(get)
-    fh.close()
+    with h5py.File(fn, mode='r') as fh:
+        fh.visititems(get)
     return dct
 
 
@@ -321,7 +319,8 @@ def load_h5(*args, **kwds):
 def read_pickle(filename):
     """Load object written by ``pickle.dump()``, e.g. files written by
     :meth:`~pwtools.base.FlexibleGetters.dump()`."""
-    return pickle.load(open(filename, 'rb'))
+    with open(filename, 'rb') as fd:
+        return pickle.load(fd)
 
 
 class ReadFactory:
-- 
2.43.0


From 8f1f34403ed47b903ea39cc44e2edd7396f6c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 30/61] fix: arrayio, dcd, open_and_close: close files also
 when reading or writing fails

---
 src/pwtools/arrayio.py    |  39 +++++-----
 src/pwtools/dcd.py        | 145 +++++++++++++++++++-------------------
 src/pwtools/decorators.py |  14 ++--
 3 files changed, 96 insertions(+), 102 deletions(-)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index e30faf2..3da4eac 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -109,26 +109,25 @@ def writetxt(fn, arr, axis=-1, maxdim=TXT_MAXDIM, header=True):
     """
     verbose("[writetxt] writing: %s" %fn)
     common.assert_cond(arr.ndim <= maxdim, 'no rank > %i arrays supported' %maxdim)
-    fh = open(fn, 'wb+')
-    if header:
-        c = ConfigParser()
-        sec = 'array'
-        c.add_section(sec)
-        c.set(sec, 'shape', common.seq2str(arr.shape))
-        c.set(sec, 'axis', str(axis))
-        _write_header_config(fh, c)
-    # 1d and 2d case
-    if arr.ndim < maxdim:
-        np.savetxt(fh, arr)
-    # 3d
-    else:
-        # TODO get rid of loop?
-        # write 2d arrays, one by one
-        sl = [slice(None)]*arr.ndim
-        for ind in range(arr.shape[axis]):
-            sl[axis] = ind
-            np.savetxt(fh, arr[tuple(sl)])
-    fh.close()
+    with open(fn, 'wb+') as fh:
+        if header:
+            c = ConfigParser()
+            sec = 'array'
+            c.add_section(sec)
+            c.set(sec, 'shape', common.seq2str(arr.shape))
+            c.set(sec, 'axis', str(axis))
+            _write_header_config(fh, c)
+        # 1d and 2d case
+        if arr.ndim < maxdim:
+            np.savetxt(fh, arr)
+        # 3d
+        else:
+            # TODO get rid of loop?
+            # write 2d arrays, one by one
+            sl = [slice(None)]*arr.ndim
+            for ind in range(arr.shape[axis]):
+                sl[axis] = ind
+                np.savetxt(fh, arr[tuple(sl)])
 
 
 @open_and_close
diff --git a/src/pwtools/dcd.py b/src/pwtools/dcd.py
index bbef799..abe4f6b 100644
--- a/src/pwtools/dcd.py
+++ b/src/pwtools/dcd.py
@@ -72,9 +72,8 @@ def read_dcd_header(fn):
     -------
     ret : dict
     """
-    fd = open(fn, 'rb')
-    arr = np.fromfile(fd, HEADER_DTYPE, 1)
-    fd.close()
+    with open(fn, 'rb') as fd:
+        arr = np.fromfile(fd, HEADER_DTYPE, 1)
     return dict((key,arr[0][key]) for key in arr.dtype.names)
 
 
@@ -104,45 +103,44 @@ def read_dcd_data_ref(fn, convang=False):
     >>> cc,co = read_dcd_data_ref('cp2k.dcd', convang=False)
     >>> cc,co = read_dcd_data_ref('lammps.dcd', convang=True)
     """
-    fd = open(fn, 'rb')
-    natoms = np.fromfile(fd, HEADER_DTYPE, 1)[0]['natoms']
-    # data per timestep
-    data_dtype = np.dtype([
-       ('blk0-0',          'i4'           ),   # 48 = 6*8 bytes = 6*float64
-       ('cryst_const_dcd', 'f8',      (6,)),   # unit cell (6*float64)
-       ('bkl0-1',          'i4'           ),   # 48
-       ('blkx-0',          'i4'           ),   # natoms*4 = natoms*float32
-       ('x',               'f4', (natoms,)),   # x (natoms*float32)
-       ('blkx-1',          'i4'           ),   # natoms*4
-       ('blky-0',          'i4'           ),   # natoms*4
-       ('y',               'f4', (natoms,)),   # y
-       ('blky-1',          'i4'           ),   # natoms*4
-       ('blkz-0',          'i4'           ),   # natoms*4
-       ('z',               'f4', (natoms,)),   # z
-       ('blkz-1',          'i4'           ),   # natoms*4
-       ])
-    cryst_const = []
-    coords = []
-    tmp_coords = np.empty((natoms,3), dtype=np.float32)
-    tmp_cryst_const = np.empty((6,), dtype=np.float64)
-    while True:
-        _data = np.fromfile(fd, data_dtype, 1)
-        if len(_data) == 0:
-            break
-        else:
-            data = _data[0]
-            tmp_coords[:,0] = data['x']
-            tmp_coords[:,1] = data['y']
-            tmp_coords[:,2] = data['z']
-            tmp_cryst_const[0] = data['cryst_const_dcd'][0]
-            tmp_cryst_const[1] = data['cryst_const_dcd'][2]
-            tmp_cryst_const[2] = data['cryst_const_dcd'][5]
-            tmp_cryst_const[3] = data['cryst_const_dcd'][4]
-            tmp_cryst_const[4] = data['cryst_const_dcd'][3]
-            tmp_cryst_const[5] = data['cryst_const_dcd'][1]
-            coords.append(tmp_coords.copy())
-            cryst_const.append(tmp_cryst_const.copy())
-    fd.close()
+    with open(fn, 'rb') as fd:
+        natoms = np.fromfile(fd, HEADER_DTYPE, 1)[0]['natoms']
+        # data per timestep
+        data_dtype = np.dtype([
+           ('blk0-0',          'i4'           ),   # 48 = 6*8 bytes = 6*float64
+           ('cryst_const_dcd', 'f8',      (6,)),   # unit cell (6*float64)
+           ('bkl0-1',          'i4'           ),   # 48
+           ('blkx-0',          'i4'           ),   # natoms*4 = natoms*float32
+           ('x',               'f4', (natoms,)),   # x (natoms*float32)
+           ('blkx-1',          'i4'           ),   # natoms*4
+           ('blky-0',          'i4'           ),   # natoms*4
+           ('y',               'f4', (natoms,)),   # y
+           ('blky-1',          'i4'           ),   # natoms*4
+           ('blkz-0',          'i4'           ),   # natoms*4
+           ('z',               'f4', (natoms,)),   # z
+           ('blkz-1',          'i4'           ),   # natoms*4
+           ])
+        cryst_const = []
+        coords = []
+        tmp_coords = np.empty((natoms,3), dtype=np.float32)
+        tmp_cryst_const = np.empty((6,), dtype=np.float64)
+        while True:
+            _data = np.fromfile(fd, data_dtype, 1)
+            if len(_data) == 0:
+                break
+            else:
+                data = _data[0]
+                tmp_coords[:,0] = data['x']
+                tmp_coords[:,1] = data['y']
+                tmp_coords[:,2] = data['z']
+                tmp_cryst_const[0] = data['cryst_const_dcd'][0]
+                tmp_cryst_const[1] = data['cryst_const_dcd'][2]
+                tmp_cryst_const[2] = data['cryst_const_dcd'][5]
+                tmp_cryst_const[3] = data['cryst_const_dcd'][4]
+                tmp_cryst_const[4] = data['cryst_const_dcd'][3]
+                tmp_cryst_const[5] = data['cryst_const_dcd'][1]
+                coords.append(tmp_coords.copy())
+                cryst_const.append(tmp_cryst_const.copy())
     coords = np.array(coords, dtype=np.float32)
     cryst_const = np.array(cryst_const, dtype=np.float64)
     if convang:
@@ -176,38 +174,37 @@ def read_dcd_data(fn, convang=False):
     >>> cc,co = read_dcd_data('cp2k.dcd', convang=False)
     >>> cc,co = read_dcd_data('lammps.dcd', convang=True)
     """
-    fd = open(fn, 'rb')
-    natoms = np.fromfile(fd, HEADER_DTYPE, 1)[0]['natoms']
-    fd_pos = fd.tell()
-    # seek to end
-    fd.seek(0, os.SEEK_END)
-    # number of bytes between fd_pos and end
-    fd_rest = fd.tell() - fd_pos
-    # reset to pos after header
-    fd.seek(fd_pos)
-    # calculate nstep: fd_rest / bytes_per_timestep
-    # 4 - initial 48
-    # 6*8 - cryst_const_dcd
-    # 7*4 - markers between x,y,z and at the end of the block
-    # 3*4*natoms - float32 cartesian coords
-    nstep = fd_rest / (4 + 6*8 + 7*4 + 3*4*natoms*1.0)
-    assert nstep % 1.0 == 0.0, ("calculated nstep is not int, cannot "
-                                "read file '{}'".format(fn))
-    nstep = int(nstep)
-    # dtype for fromfile: nstep times dtype of a timestep data block
-    dtype = \
-        np.dtype(([('x0', 'i4'),
-                   ('x1', 'f8', (6,)),
-                   ('x2', 'i4', (2,)),
-                   ('x3', 'f4', (natoms,)),
-                   ('x4', 'i4', (2,)),
-                   ('x5', 'f4', (natoms,)),
-                   ('x6', 'i4', (2,)),
-                   ('x7', 'f4', (natoms,)),
-                   ('x8', 'i4')],
-                   (nstep,)))
-    arr = np.fromfile(fd, dtype, 1)
-    fd.close()
+    with open(fn, 'rb') as fd:
+        natoms = np.fromfile(fd, HEADER_DTYPE, 1)[0]['natoms']
+        fd_pos = fd.tell()
+        # seek to end
+        fd.seek(0, os.SEEK_END)
+        # number of bytes between fd_pos and end
+        fd_rest = fd.tell() - fd_pos
+        # reset to pos after header
+        fd.seek(fd_pos)
+        # calculate nstep: fd_rest / bytes_per_timestep
+        # 4 - initial 48
+        # 6*8 - cryst_const_dcd
+        # 7*4 - markers between x,y,z and at the end of the block
+        # 3*4*natoms - float32 cartesian coords
+        nstep = fd_rest / (4 + 6*8 + 7*4 + 3*4*natoms*1.0)
+        assert nstep % 1.0 == 0.0, ("calculated nstep is not int, cannot "
+                                    "read file '{}'".format(fn))
+        nstep = int(nstep)
+        # dtype for fromfile: nstep times dtype of a timestep data block
+        dtype = \
+            np.dtype(([('x0', 'i4'),
+                       ('x1', 'f8', (6,)),
+                       ('x2', 'i4', (2,)),
+                       ('x3', 'f4', (natoms,)),
+                       ('x4', 'i4', (2,)),
+                       ('x5', 'f4', (natoms,)),
+                       ('x6', 'i4', (2,)),
+                       ('x7', 'f4', (natoms,)),
+                       ('x8', 'i4')],
+                       (nstep,)))
+        arr = np.fromfile(fd, dtype, 1)
     cryst_const = np.empty((nstep,6), dtype=np.float64)
     cryst_const[:,0] = arr['x1'][0,:,0]
     cryst_const[:,1] = arr['x1'][0,:,2]
diff --git a/src/pwtools/decorators.py b/src/pwtools/decorators.py
index 540fd2c..7659489 100644
--- a/src/pwtools/decorators.py
+++ b/src/pwtools/decorators.py
@@ -47,14 +47,12 @@ def open_and_close(func):
                 _open = gzip.open
             else:
                 _open = open
-            fd = _open(fn, 'rt')
-            # Files opened with gzip don't have a 'name' attr.
-            if not hasattr(fd, 'name'):
-                fd.name = os.path.abspath(os.path.expanduser(fn))
-            largs[0] = fd
-            ret = func(*tuple(largs), **kwargs)
-            largs[0].close()
-            return ret
+            with _open(fn, 'rt') as fd:
+                # Files opened with gzip don't have a 'name' attr.
+                if not hasattr(fd, 'name'):
+                    fd.name = os.path.abspath(os.path.expanduser(fn))
+                largs[0] = fd
+                return func(*tuple(largs), **kwargs)
         else:
             # File object case. Don't explicitly test for types.FileType b/c
             # that does not if largs[0] is actually a [c]StringIO.StringIO
-- 
2.43.0


From 91757bd685d5092a6c18fc8a7ce869f7c30c3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 31/61] fix: close the descriptors of temp files
 (crys.vmd_measure_gofr, visualize)

---
 src/pwtools/common.py    |  9 +++++++++
 src/pwtools/crys.py      |  9 ++++-----
 src/pwtools/visualize.py | 11 +++++------
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 90e4c12..6d365d8 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -1,6 +1,7 @@
 import signal
 import os
 import subprocess
+import tempfile
 import shutil
 import re
 import pickle
@@ -342,6 +343,14 @@ def get_filename(fh):
     return name
 
 
+def mkstempfile(**kwds):
+    """Create an empty temp file, return its name. `kwds` are passed to
+    ``tempfile.mkstemp()``, whose file descriptor is closed."""
+    fd, fn = tempfile.mkstemp(**kwds)
+    os.close(fd)
+    return fn
+
+
 def file_read(fn):
     """Open file with name `fn`, return open(fn).read()."""
     with open(fn, 'r') as fd:
diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3a1aded..d9a5fdf 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1,7 +1,6 @@
 from math import acos, pi, sin, cos, sqrt
 import textwrap
 import time
-import tempfile
 import copy
 import itertools
 
@@ -1682,11 +1681,11 @@ def call_vmd_measure_gofr(trajfn, dr=None, rmax=None, sel=['all','all'],
     if tmpdir is None:
         tmpdir = '/tmp'
     if datafn is None:
-        datafn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_data_', text=True)[1]
+        datafn = common.mkstempfile(dir=tmpdir, prefix='vmd_data_', text=True)
     if scriptfn is None:
-        scriptfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_script_', text=True)[1]
+        scriptfn = common.mkstempfile(dir=tmpdir, prefix='vmd_script_', text=True)
     if logfn is None:
-        logfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_log_', text=True)[1]
+        logfn = common.mkstempfile(dir=tmpdir, prefix='vmd_log_', text=True)
     dct = {}
     dct['trajfn'] = trajfn
     dct['fntype'] = fntype
@@ -1774,7 +1773,7 @@ def vmd_measure_gofr(traj, dr=0.05, rmax='auto', sel=['all','all'], first=0,
     # actually the bottleneck and makes this function slower.
     if tmpdir is None:
         tmpdir = '/tmp'
-    trajfn = tempfile.mkstemp(dir=tmpdir, prefix='vmd_xsf_', text=True)[1]
+    trajfn = common.mkstempfile(dir=tmpdir, prefix='vmd_xsf_', text=True)
     cell = traj.cell[0,...]
     cc = traj.cryst_const[0,...]
     if np.abs(cc[3:] - 90.0).max() > 0.1:
diff --git a/src/pwtools/visualize.py b/src/pwtools/visualize.py
index 380bdc5..be7a2ce 100644
--- a/src/pwtools/visualize.py
+++ b/src/pwtools/visualize.py
@@ -33,7 +33,6 @@ command. Or you place these lines in a script and use::
     $ vmd script_to_execute.tcl
 """
 
-from tempfile import mkstemp
 import os
 from pwtools import io, common
 
@@ -111,13 +110,13 @@ class ViewFactory:
             self.assert_cmd(obj)
         self._set_dummy_symbols(obj)
         if structfile is None:
-            fd1,structfile = mkstemp(dir=tmpdir,
-                                     prefix='pwtools_view_struct_',
-                                     suffix=self.suffix)
+            structfile = common.mkstempfile(dir=tmpdir,
+                                            prefix='pwtools_view_struct_',
+                                            suffix=self.suffix)
 
         if logfile is None:
-            fd2,logfile = mkstemp(dir=tmpdir,
-                                  prefix='pwtools_view_log_')
+            logfile = common.mkstempfile(dir=tmpdir,
+                                         prefix='pwtools_view_log_')
         self.writer(structfile, obj)
         if disp:
             cmd_str = "%s %s %s 2>&1 | tee %s" %(self.cmd, options, structfile, logfile)
-- 
2.43.0


From a7b0ebe2bd050cbcea5f8f44951f505fceae18b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 32/61] fix: ParameterStudy.write_input: read old indices from
 the configured table

---
 src/pwtools/batch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 47ec13b..756b1d3 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -607,8 +607,9 @@ class ParameterStudy:
                   ",".join(['?']*len(list(record.keys()))))
             sqldb.execute(cmd, tuple(entry.sqlval for entry in record.values()))
         if excl and revision > 0 and sqldb.has_column('revision'):
-            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from calc where \
-                                                          revision < ?", (revision,))]
+            old_idx_lst = [str(x) for x, in sqldb.execute("select idx from %s where \
+                                                          revision < ?" %self.db_table,
+                                                          (revision,))]
             common.file_write(pj(self.calc_root, 'excl_push'),
                               '\n'.join(old_idx_lst))
         sqldb.finish()
-- 
2.43.0


From 8995286e4fdbdce0f122c8ae3c9e8c9170aaedb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 33/61] fix: ParameterStudy.write_input: quote the calc dir in
 rm -r (names with blanks)

---
 src/pwtools/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index 756b1d3..dbebba9 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -2,6 +2,7 @@
 
 import os
 import copy
+import shlex
 import shutil
 from collections.abc import Callable
 
@@ -558,7 +559,7 @@ class ParameterStudy:
                 if backup:
                     common.backup(calc_dir)
                 if mode == 'w':
-                    common.system("rm -r %s" %calc_dir, wait=True)
+                    common.system("rm -r %s" %shlex.quote(calc_dir), wait=True)
             run_txt = "here=$(pwd)\n"
             for _idx, params in enumerate(self.params_lst):
                 params = common.flatten(params)
-- 
2.43.0


From db8dce71f74ae83f115e242b6892bafd365d96a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 34/61] fix: ParameterStudy.write_input: column order of the
 database does not depend on hashing

---
 src/pwtools/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index dbebba9..ff1d430 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -593,7 +593,7 @@ class ParameterStudy:
         # make a set = unique entries
         raw_header = [(key, entry.sqltype.upper()) for record in sql_records \
             for key, entry in record.items()]
-        header = list(set(raw_header))
+        header = list(dict.fromkeys(raw_header))
         if have_new_db:
             sqldb.create_table(header)
         else:
-- 
2.43.0


From 64ae78114a136795063323ca86ae385109b44c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 35/61] fix: sql/batch: max() of an empty table is NULL
 (fill_column, write_input mode='a')

---
 src/pwtools/batch.py | 9 +++++++--
 src/pwtools/sql.py   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/batch.py b/src/pwtools/batch.py
index ff1d430..1fde261 100644
--- a/src/pwtools/batch.py
+++ b/src/pwtools/batch.py
@@ -540,13 +540,18 @@ class ParameterStudy:
                 if sqldb.has_column('idx'):
                     max_idx = sqldb.execute("select max(idx) from %s" \
                     %self.db_table).fetchone()[0]
+                    # empty table
+                    if max_idx is None:
+                        max_idx = -1
                 else:
                     raise Exception("database '%s': table '%s' has no "
                           "column 'idx', don't know how to number calcs"
                           %(self.dbfn, self.db_table))
                 if sqldb.has_column('revision'):
-                    revision = int(sqldb.get_single("select max(revision) \
-                        from %s" %self.db_table)) + 1
+                    max_rev = sqldb.get_single("select max(revision) \
+                        from %s" %self.db_table)
+                    if max_rev is not None:
+                        revision = int(max_rev) + 1
             elif mode == 'w':
                 max_idx = -1
         sql_records = []
diff --git a/src/pwtools/sql.py b/src/pwtools/sql.py
index 2288683..4847297 100644
--- a/src/pwtools/sql.py
+++ b/src/pwtools/sql.py
@@ -328,7 +328,9 @@ class SQLiteDB:
         ----------
         table : str, optional
         """
-        return self.get_single("select max(rowid) from %s" %self._get_table(table))
+        # NULL -> None if the table is empty
+        maxrowid = self.get_single("select max(rowid) from %s" %self._get_table(table))
+        return 0 if maxrowid is None else maxrowid
 
     def fill_column(self, col, values, start=1, extend=True,
                     overwrite=False, table=None):
-- 
2.43.0


From a7e7a975a2dcc6e4db9481719904c77300aba360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:32 +0000
Subject: [PATCH 36/61] fix: crys.mean: order of attr_lst does not depend on
 hashing

---
 src/pwtools/crys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d9a5fdf..3a7f378 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3130,8 +3130,8 @@ def mean(traj):
     struct = Structure(set_all_auto=False)
     # add some non-Structure attrs like velocity,ekin,temperature
     attrs_only_traj = ['time', 'timestep', 'nstep']
-    extra = list(set.difference(set(traj.attrs_only_traj),
-                                set(attrs_only_traj)))
+    extra = [name for name in traj.attrs_only_traj
+             if name not in attrs_only_traj]
     struct.attr_lst += extra
     for attr_name in set.difference(set(traj.attrs_nstep),
                                     set(attrs_only_traj)):
-- 
2.43.0


From 4853810c43b4103e7a978411aa3052ebfab55b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 37/61] fix: atomic_data: element 117 was missing, Uuo had
 number 117

---
 src/pwtools/atomic_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/atomic_data.py b/src/pwtools/atomic_data.py
index 57c5419..2e5c70d 100644
--- a/src/pwtools/atomic_data.py
+++ b/src/pwtools/atomic_data.py
@@ -155,6 +155,7 @@ symbols = [
     "Uuq",
     "Uup",
     "Uuh",
+    "Uus",
     "Uuo",
 ]
 
@@ -278,6 +279,7 @@ masses = np.array(
         288,
         293,
         294,
+        294,
     ]
 )
 
@@ -401,7 +403,8 @@ covalent_radii = np.array(
         missing,  # Uuq
         missing,  # Uup
         missing,  # Uuh
-        missing,  # Uuh
+        missing,  # Uus
+        missing,  # Uuo
     ]
 )
 
-- 
2.43.0


From e4fd784bdabbf6befae2979285ca39a0a68d0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 38/61] fix: crys.concatenate: do not copy velocity, ekin, ...
 of the first item only

---
 src/pwtools/crys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 3a7f378..cb68fb8 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -3093,7 +3093,7 @@ def concatenate(lst):
                               axis=0)
         setattr(traj, name, attr)
     attrs_traj = traj.attrs_nstep + traj.attrs_only_traj
-    for name in set.symmetric_difference(com_attrs, set(attrs_traj)):
+    for name in set.difference(com_attrs, set(attrs_traj)):
         setattr(traj, name, getattr(trlst[0], name))
     traj.timestep = None
     traj.time = None
-- 
2.43.0


From c04fb0c8673c9a94f1f8bdc63f7b5de0e2c68883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 39/61] fix: crys.Trajectory.__iter__: each loop starts at the
 first step

---
 src/pwtools/crys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index cb68fb8..dc4417b 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2938,7 +2938,8 @@ class Trajectory(Structure):
         super(Trajectory, self).__init__(*args, **kwds)
 
     def __iter__(self):
-        return self
+        # independent of other loops over the same Trajectory
+        return (self[ii] for ii in range(self.nstep))
 
     def __getitem__(self, idx):
         want_traj = False
-- 
2.43.0


From b7234283b4026c5c5ab361af33d735e3dbba0175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 40/61] fix: crys.Structure.copy: keep extra attributes
 (mean()) in copies of copies

---
 src/pwtools/crys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index dc4417b..37bcb24 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2518,6 +2518,8 @@ class Structure(UnitsHandler):
             obj = Structure(set_all_auto=False)
         elif self.is_traj:
             obj = Trajectory(set_all_auto=False)
+        # may have been extended, see mean()
+        obj.attr_lst = list(self.attr_lst)
         # Copy attrs over
         for name in self.attr_lst:
             val = getattr(self, name)
-- 
2.43.0


From 03bd464ca6c91c2319b597e6b0ca2acb526d4f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 41/61] fix: num.sum() with negative axes in a tuple or with
 keepdims

---
 src/pwtools/num.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index b596311..86513b4 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -719,6 +719,8 @@ def sum(arr, axis=None, keepdims=False, **kwds):
             tosum = list(axis)
         else:
             raise Exception("illegal type for axis: %s" % str(type(axis)))
+        # the renaming in _sum() and the lookup below need axes >= 0
+        tosum = [xx + arr.ndim if xx < 0 else xx for xx in tosum]
         if keepdims:
             alldims = range(arr.ndim)
             tosum = [xx for xx in alldims if xx not in tosum]
-- 
2.43.0


From 5535fa57d95ac7a0145bc8c2b2503e12e7478c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 42/61] fix: num.sliceput() with axis or with a list of slices

---
 src/pwtools/num.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index 86513b4..d74d94b 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -573,6 +573,9 @@ def sliceput(a, b, sl, axis=None):
         # [slice(...), slice(...), ...]
         tmp = [slice(None)] * len(a.shape)
         tmp[axis] = sl
+    # numpy accepts slice objects only in a tuple
+    if isinstance(tmp, list):
+        tmp = tuple(tmp)
     a[tmp] = b
     return a
 
-- 
2.43.0


From b9b959e91bd450b29c1eadff17b7c1f86eb7770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 43/61] fix: signal.fft_1d_loop() with a negative axis other
 than -1

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 952b113..4c50330 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -189,7 +189,7 @@ def fft_1d_loop(arr, axis=-1):
     nice reference for how to loop over remaining axes in the ndarray case.
     """
     if axis < 0:
-        axis = arr.ndim - 1
+        axis = arr.ndim + axis
     axes = [ax for ax in range(arr.ndim) if ax != axis]
     # tuple here is 3x faster than generator expression
     #   idxs = (range(arr.shape[ax]) for ax in axes)
-- 
2.43.0


From bdbec7dbf15c2175ab21b93c11ecff1ba78c08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 44/61] fix: signal.mirror() along another axis than the first

---
 src/pwtools/signal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index 4c50330..a4d6f75 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -361,7 +361,9 @@ cauchy = lorentz
 def mirror(arr, axis=0):
     """Mirror array `arr` at index 0 along `axis`.
     The length of the returned array is 2*arr.shape[axis]-1 ."""
-    return np.concatenate((arr[::-1],arr[1:]), axis=axis)
+    return np.concatenate((num.slicetake(arr, np.s_[::-1], axis=axis),
+                           num.slicetake(arr, np.s_[1:], axis=axis)),
+                          axis=axis)
 
 # XXX
 # Check f2py wrapper of _flib.acorr(): The signature is:
-- 
2.43.0


From 67365d41326145c49d48851e0a5eaf1d0d27a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 45/61] fix: num.PolyFit1D with points of shape (npoints,1)

---
 src/pwtools/num.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index d74d94b..d22ba75 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1575,7 +1575,7 @@ class PolyFit1D(Fit1D, PolyFit):
             return pp[:, None]
         # (M,N)
         elif pp.ndim == 2:
-            assert pp.shape[1] == self.fit["ndim"], "points have wrong ndim"
+            assert pp.shape[1] == 1, "points have wrong ndim"
             return pp
         else:
             raise ValueError("points has wrong shape or dim")
-- 
2.43.0


From a3d37b9132b6c155202a0c84bcd0b484c7162923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 46/61] fix: num.order_similar(): use `order` in every step,
 run `repeat` times

---
 src/pwtools/num.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/pwtools/num.py b/src/pwtools/num.py
index d22ba75..e91ef07 100644
--- a/src/pwtools/num.py
+++ b/src/pwtools/num.py
@@ -1719,28 +1719,21 @@ def order_similar(arr, repeat=1, order=2):
     """
     assert 0 <= order <= 2, "order must be 0,1,2"
     assert repeat >= 1, "repeat must be >= 1"
-    _o_zero = False
-    _o_one = False
-    _o_two = False
-    if order >= 0:
-        _o_zero = True
-    if order >= 1:
-        _o_one = True
-    if order == 2:
-        _o_two = True
     if repeat == 1:
         ni, nj = arr.shape
         arr2 = np.empty_like(arr)
         arr2[0, :] = arr[0, :]
         for ii in range(ni - 1):
+            # only ii+1 points are there to extrapolate from
+            extra_order = min(ii, order)
             for jj in range(nj):
-                if (ii == 0) and _o_zero:
+                if extra_order == 0:
                     # 1st row: choose next similar point
                     ref = arr2[ii, jj]
-                elif (ii == 1) and _o_one:
+                elif extra_order == 1:
                     # 2 rows: linear extrapolation
                     ref = 2 * arr2[ii, jj] - arr2[ii - 1, jj]
-                elif (ii >= 2) and _o_two:
+                else:
                     # > 2 rows: quadradic extrapolation
                     #
                     # Calling polyfit is pretty slow and could be
@@ -1754,7 +1747,9 @@ def order_similar(arr, repeat=1, order=2):
                 idx = np.argmin(dif)
                 arr2[ii + 1, jj] = arr[ii + 1, idx]
     else:
-        arr2 = order_similar(arr, repeat=repeat - 1)
+        arr2 = order_similar(
+            order_similar(arr, repeat=repeat - 1, order=order), order=order
+        )
     return arr2
 
 
-- 
2.43.0


From 80d472412fed42b2b29b1788de9784938c096685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:29 +0000
Subject: [PATCH 47/61] fix: kpath.SpecialPointsPath: ks_frac is optional

---
 src/pwtools/kpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/kpath.py b/src/pwtools/kpath.py
index 2310091..7cb2b48 100644
--- a/src/pwtools/kpath.py
+++ b/src/pwtools/kpath.py
@@ -71,7 +71,7 @@ class SpecialPointsPath:
         symbols : sequence of strings (nks,), optional
             special point symbol each point in `ks`
         """
-        assert (ks is not None) and (ks_frac is not None), ("use either ks or ks_frac")
+        assert ks is not None, "ks (cartesian k-points) is needed"
         self.ks = ks
         self.ks_frac = ks_frac
         self.symbols = symbols
-- 
2.43.0


From 606e1fcb115707df384e61ac02791982a44516f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:19 +0000
Subject: [PATCH 48/61] fix: crys.nearest_neighbors: num neighbors also if the
 central atom is skipped

---
 src/pwtools/crys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index 37bcb24..d9bda8d 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -1985,9 +1985,9 @@ def nearest_neighbors_from_dists(dists, symbols, idx=None, skip=None,
     else:
         only_msk = np.ones((len(symbols_sort),), dtype=bool)
     if cutoff is None:
-        # ``1:`` : central atom excluded
-        cut_msk = np.s_[1:num+1]
-        ret_idx = idx_lst_sort[only_msk][cut_msk]
+        # exclude the central atom, which may be among the skipped ones already
+        only_msk = only_msk & (idx_lst_sort != np.arange(len(dist1d))[idx])
+        ret_idx = idx_lst_sort[only_msk][:num]
     else:
         cut_msk = (dist1d_sort > 0) & (dist1d_sort < cutoff)
         ret_idx = idx_lst_sort[cut_msk & only_msk]
-- 
2.43.0


From 7f4912c0e0ed58777bf31beaaa0617d85876f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 49/61] fix: eos.EosFit.bulkmod: B(V) depends on the volume

---
 src/pwtools/eos.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 0aea5a9..2fab102 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -227,10 +227,7 @@ class EosFit(Fit1D):
         volume : scalar, 1d array
             volume per atom [Ang^3]
         """
-        if 'b0' in self.params:
-            return self.params['b0'] * eV_by_Ang3_to_GPa
-        else:
-            return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
+        return volume * self(volume, der=2) * eV_by_Ang3_to_GPa
 
 
 class ExternEOS(FlexibleGetters):
-- 
2.43.0


From e31e60f7eeccf438dc48cc9e383d9a08e463a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 50/61] fix: arrayio.readtxt: restore dimensions of length 1

---
 src/pwtools/arrayio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pwtools/arrayio.py b/src/pwtools/arrayio.py
index 3da4eac..991340f 100644
--- a/src/pwtools/arrayio.py
+++ b/src/pwtools/arrayio.py
@@ -192,6 +192,8 @@ def readtxt(fh, axis=None, shape=None, header_maxlines=HEADER_MAXLINES,
         return np.array([])
     else:
         fh.seek(0)
+        # keep dims of length 1, such as in shape=(1,3)
+        kwargs.setdefault('ndmin', min(ndim, 2))
         read_arr = np.loadtxt(fh, **kwargs)
 
     # 1d and 2d
-- 
2.43.0


From 462017e8a85688fe1016e0fdd362fb082840b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 51/61] fix: pwscf.kpoints_str_pwin: accept any sequence,
 arrays were added to the shift

---
 src/pwtools/pwscf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/pwscf.py b/src/pwtools/pwscf.py
index efa3dad..4e82793 100644
--- a/src/pwtools/pwscf.py
+++ b/src/pwtools/pwscf.py
@@ -130,7 +130,7 @@ def kpoints_str_pwin(lst, shift=[0,0,0]):
     lst : sequence (3,)
     shift : sequence (3,), optional
     """
-    return ' '.join(map(str, lst+shift))
+    return ' '.join(map(str, list(lst) + list(shift)))
 kpointstr_pwin = kpoints_str_pwin
 
 
-- 
2.43.0


From 6f2e892a662de907327cf8c6a66428b0f4c82aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 52/61] fix: PwMDOutputFile.get_temperature: don't take the
 starting temperature for that of step 1

---
 src/pwtools/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 15be107..f2819d4 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1119,7 +1119,8 @@ class PwMDOutputFile(TrajectoryFileParser, PwSCFOutputFile):
     def get_temperature(self):
         """Temperature [K]"""
         verbose("getting temperature")
-        cmd = r"egrep 'temperature[ ]*=' %s " %self.filename + \
+        # skip "Starting temperature = ...", which is printed before step 1
+        cmd = r"egrep '^[ ]*temperature[ ]*=' %s " %self.filename + \
               r"| sed -re 's/.*temp.*=\s*(" + regex.float_re + \
               r")\s*K/\1/'"
         return arr1d_from_txt(com.backtick(cmd))
-- 
2.43.0


From 3e30339e973f1f086f839518799b9164d47282c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 53/61] fix: Trajectory.get_velocity: no velocity for less than
 3 steps instead of an IndexError

---
 src/pwtools/crys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/crys.py b/src/pwtools/crys.py
index d9bda8d..d0e8b31 100644
--- a/src/pwtools/crys.py
+++ b/src/pwtools/crys.py
@@ -2539,7 +2539,9 @@ class Structure(UnitsHandler):
         if self.is_struct:
             raise NotImplementedError("only in Trajectory")
         if not self.is_set_attr('velocity'):
-            if self.check_set_attr_lst(['coords', 'timestep']):
+            # central differences need at least 3 steps
+            if self.check_set_attr_lst(['coords', 'timestep']) and \
+               self.coords.shape[0] > 2:
                 return velocity_traj(self.coords, dt=self.timestep, axis=0,
                                      endpoints=True)
             else:
-- 
2.43.0


From 337b3ef494159c69155c64bf1e48fd75c8e412a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:31 +0000
Subject: [PATCH 54/61] fix: CpmdMDOutputFile.get_ekin: return the kinetic
 energy, not ECLASSIC (potential + kinetic energy)

---
 src/pwtools/parse.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index f2819d4..6c9302a 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1617,8 +1617,17 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
             return None
 
     def get_ekin(self):
-        if self.check_set_attr('_energies_file'):
-            return self._energies_file['eclassic']
+        """Kinetic energy of the ions [Ha]. There is no such column in the
+        ENERGIES file (ECLASSIC is EKS + EKIN, plus thermostat energies), but
+        CPMD calculates TEMPP from it, using 3*natoms-3 degrees of freedom:
+            EKIN [J] = 3/2 * (natoms - 1) * kb [J/K] * TEMPP [K]
+        """
+        verbose("getting ekin")
+        req = ['_energies_file', 'natoms']
+        self.try_set_attr_lst(req)
+        if self.is_set_attr_lst(req):
+            return 1.5 * (self.natoms - 1) * constants.kb / constants.Ha * \
+                self._energies_file['tempp']
         else:
             return None
 
-- 
2.43.0


From a01b8010d745978ab790ee2c9477926279ecf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:52 +0000
Subject: [PATCH 55/61] fix: parse: read one-line ENERGIES (CPMD) and .ener,
 .cell, .stress (CP2K) files, they are 2d

---
 src/pwtools/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 6c9302a..094c648 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -1553,7 +1553,7 @@ class CpmdMDOutputFile(TrajectoryFileParser, CpmdSCFOutputFile):
         verbose("getting _energies_file")
         fn = os.path.join(self.basedir, 'ENERGIES')
         if os.path.exists(fn):
-            arr = np.loadtxt(fn)
+            arr = np.loadtxt(fn, ndmin=2)
             ncols = arr.shape[-1]
             if ncols not in list(self._energies_order.keys()):
                 raise Exception("only %s columns supported in "
@@ -1915,19 +1915,19 @@ class Cp2kMDOutputFile(TrajectoryFileParser, Cp2kSCFOutputFile):
 
     def _get_cell_file_arr(self):
         if os.path.exists(self._cell_file):
-            return np.loadtxt(self._cell_file)
+            return np.loadtxt(self._cell_file, ndmin=2)
         else:
             return None
 
     def _get_ener_file_arr(self):
         if os.path.exists(self._ener_file):
-            return np.loadtxt(self._ener_file)
+            return np.loadtxt(self._ener_file, ndmin=2)
         else:
             return None
 
     def _get_stress_file_arr(self):
         if os.path.exists(self._stress_file):
-            return np.loadtxt(self._stress_file)
+            return np.loadtxt(self._stress_file, ndmin=2)
         else:
             return None
 
-- 
2.43.0


From c24be54af19290e886e70914c5c04cbcfcd2a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:07 +0000
Subject: [PATCH 56/61] fix: parse.CifFile: data blocks have no data_ prefix in
 PyCifRW, selecting one always failed

---
 src/pwtools/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/parse.py b/src/pwtools/parse.py
index 094c648..495fa03 100644
--- a/src/pwtools/parse.py
+++ b/src/pwtools/parse.py
@@ -391,7 +391,7 @@ class CifFile(StructureFileParser):
         if self.block is None:
             cif_block = cf.first_block()
         else:
-            cif_block = cf['data_' + self.block]
+            cif_block = cf[self.block]
         return cif_block
 
     def get_coords_frac(self):
-- 
2.43.0


From 5f8486cace368a8db21931de44ac7e828feff867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 57/61] fix: find_peaks: compare the peak with ymin, not the
 point before it

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index a4d6f75..a3af758 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -565,7 +565,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     idx0 = []
     dfy = np.diff(y, n=1)
     for ii in range(len(dfy)-1):
-        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii] >= ymin:
+        if dfy[ii] > 0 and dfy[ii+1] < 0 and y[ii+1] >= ymin:
             idx0.append(ii+1)
     pos0 = None
     if x is not None:
-- 
2.43.0


From 2d64c4d055ef6cae47981fa13982f0f9217398dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 58/61] fix: find_peaks: peaks less than spread points from the
 left end

---
 src/pwtools/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/signal.py b/src/pwtools/signal.py
index a3af758..0c3553e 100644
--- a/src/pwtools/signal.py
+++ b/src/pwtools/signal.py
@@ -571,7 +571,7 @@ def find_peaks(y, x=None, k=3, spread=2, ymin=None):
     if x is not None:
         pos0 = []
         for i0 in idx0:
-            sl = slice(i0-spread,i0+1+spread,None)
+            sl = slice(max(i0-spread,0),i0+1+spread,None)
             xx = x[sl]
             yy = y[sl]
             spl = num.Spline(xx,-yy,k=k,s=None)
-- 
2.43.0


From a6b75ef24aa24794f42bc5ad4c153568c05b8317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:46 +0000
Subject: [PATCH 59/61] fix: template_replace: placeholder which is the start
 of another one

---
 src/pwtools/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pwtools/common.py b/src/pwtools/common.py
index 6d365d8..59d541a 100644
--- a/src/pwtools/common.py
+++ b/src/pwtools/common.py
@@ -454,7 +454,10 @@ def template_replace(txt, dct, conv=False, warn_mult_found=True,
     # that if we loop over dct.iteritems() and sucessively replace averything.
     if is_txt_mode:
         new_txt = txt
-    for key, val in dct.items():
+    # Longest keys first: a placeholder may be the start of another one (XXXECUT,
+    # XXXECUTRHO).
+    for key in sorted(dct.keys(), key=len, reverse=True):
+        val = dct[key]
         if is_dct_mode:
             # The key is '%(foo)s', but searching for '%(foo)' must suffice,
             # since we don't know the format string, in this case 's', in
-- 
2.43.0


From 2bbb20e7e81677d74d167e8930b1e2bc6da68f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:23 +0000
Subject: [PATCH 60/61] fix: EosFit also refuses data whose parabola minimum
 lies above the input volumes

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 2fab102..81c1312 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -176,7 +176,7 @@ class EosFit(Fit1D):
         e0 = a*v0**2 + b*v0 + c
         b0 = 2*a*v0
         b1 = 4  # b1 is usually a small number like 4
-        if not self.volume.min() < v0 and v0 < self.volume.max():
+        if not self.volume.min() < v0 < self.volume.max():
             raise Exception('The minimum volume of a fitted parabola is not in the input volumes')
 
         # need to use lst2dct and dct2lst here to keep the order of parameters
-- 
2.43.0


From 1eb0e4bd9c4cac7de2bd13660ada50c2f3dd4a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:33 +0000
Subject: [PATCH 61/61] fix: ExternEOS refuses volumes that are not in
 ascending order

---
 src/pwtools/eos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pwtools/eos.py b/src/pwtools/eos.py
index 81c1312..6cfe9fd 100644
--- a/src/pwtools/eos.py
+++ b/src/pwtools/eos.py
@@ -304,7 +304,7 @@ class ExternEOS(FlexibleGetters):
                       DeprecationWarning)
         assert len(energy) == len(volume), ("volume and energy arrays have "
                                             "not the same length")
-        assert (np.diff(volume) > 0.0).any(), ("volume seems to be wrongly "
+        assert (np.diff(volume) > 0.0).all(), ("volume seems to be wrongly "
             "sorted")
         self.app = app
         self.energy = energy
-- 
2.43.0

