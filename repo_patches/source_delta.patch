From 1fc5ca794f99e92c88c4771a78677fa3a02eb71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 01/71] fix: production function evaluated with a0=0 uses that
 a0, not the default

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index 4156b54..e8f220b 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -80,7 +80,7 @@ class Productionfn:
         :param a0: a0
         :return: y-values
         '''
-        if not a0:
+        if a0 is None:
             a0 = self.a[0] if hasattr(self,'a') else 0.
         if presentation=='cumulative':
             return self.C(d,a0)
-- 
2.43.0


From e2cfa234fa7349e00ba674045b54272b8cf85dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 02/71] fix: scc reader truncated Total_area and
 Total_perimeter given in exponent notation

---
 src/craterstats/Cratercount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 9c118cc..908b698 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -174,11 +174,11 @@ class Cratercount:
 
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
 
-        self.area=float(re.findall(r'\s*[\d\.]*',s['Total_area'])[0])
+        self.area=float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_area'])[0])
         if 'Perimeter' in s.keys():
             self.perimeter = float(s['Perimeter'].split()[0])
         if 'Total_perimeter' in s.keys(): #for Thomas Heyer's OpenCraterTool
-            self.perimeter = float(re.findall(r'\s*[\d\.]*',s['Total_perimeter'])[0])
+            self.perimeter = float(re.findall(r'\s*[\d\.]*(?:[eE][+-]?\d+)?',s['Total_perimeter'])[0])
         self.diam=[diam[e] for e in q]
         self.fraction=[frac[e] for e in q]
         self.prebinned=0
-- 
2.43.0


From f8f50b3d2e5fd2f9b3ff08329076af35ebc3b0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 03/71] fix: smallest crater lost from binning when it lies on
 a bin boundary

---
 src/craterstats/Cratercount.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 908b698..2c082a0 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -267,6 +267,8 @@ class Cratercount:
 
         q=np.searchsorted(bins,10**r10)
         needed_bins = bins[np.clip(q[0]-1,0,None):q[1]+1]
+        if expand and len(d)>0: # rounding may put first boundary just above smallest d, which would then go uncounted
+            needed_bins[0] = min(needed_bins[0], gm.range(d)[0])
         return needed_bins
 
 
-- 
2.43.0


From 67d86bdf3db08ee2cab32f0ff8c39d5b7c0b027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 04/71] fix: buffered Poisson integral overestimated for wide
 diameter ranges

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 92ca520..ce2cd02 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -53,7 +53,7 @@ class Craterpdf:
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
                 ns=500 #samples of PF for integration
-                d=np.linspace(d_range[0], d_range[1], ns)
+                d=np.geomspace(d_range[0], d_range[1], ns) # log spacing: PF steep, may span several decades
                 F=pf.F(d,a0)
                 y=(cc.area+d*cc.perimeter/2.+np.pi*d**2/4.)*F
                 I1=simpson(y,d)
-- 
2.43.0


From 2b85777e824103f544d384a72cb3c6829b58b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:34 +0000
Subject: [PATCH 05/71] fix: Poisson age of a count denser than the chronology
 reaches was nan or failed

---
 src/craterstats/Craterpdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index ce2cd02..642f462 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -64,8 +64,8 @@ class Craterpdf:
 
         pdf0 = gm.poisson(self.k, lam) * cf.phi(self.ts) # include dC/dt factor
         pdf0 = pdf0.astype(float)
-        if np.sum(pdf0)<1e-30: #force line peak if under-resolved
-            pdf0[np.searchsorted(lam, self.k)] = 1.
+        if np.sum(pdf0*self.dt)<1e-30: #force line peak if under-resolved, or beyond end of chronology
+            pdf0[min(np.searchsorted(lam, self.k), np.argmax(self.ts))] = 1.
         self.lam = lam
         self.pdf = pdf0/np.sum(pdf0*self.dt)
         self.cdf = np.cumsum(self.pdf*self.dt)
-- 
2.43.0


From dfbbb0f7c23125569b99193b13fd73de869869dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 06/71] fix: sequence probability wrapped the end of the
 cumulative distribution into the youngest sample

---
 src/craterstats/Craterpdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 642f462..521785c 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -242,7 +242,7 @@ class Craterpdf:
         """
         # Discretisation of cdf biases result, since calculated for one edge, especially for narrow pdfs.
         # Finding midpoint to fix:
-        cdf2=(pdf2.cdf+np.roll(pdf2.cdf, 1))/2.
+        cdf2=(pdf2.cdf+np.append(0., pdf2.cdf[:-1]))/2.
         P = np.sum(self.dt * self.pdf * cdf2)
         return P
 
-- 
2.43.0


From df80decea14b677fb23c7a51d95c4863fc3407f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 07/71] fix: resurfacing=None is documented as no correction
 but applied it

---
 src/craterstats/Cratercount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 2c082a0..24ab357 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -391,7 +391,7 @@ class Cratercount:
             if self.binning != binning:
                 self.apply_binning(binning)
 
-        adj = 0 if resurfacing==0 else self.resurf_adj(pf,range)
+        adj = 0 if not resurfacing else self.resurf_adj(pf,range)
 
         q=np.where(self.binned['n']>0)
 
-- 
2.43.0


From 9c63f7e8f871ed6155fe3e2dd4f05ab27c635bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 08/71] fix: isochron diameters below the equilibrium table
 were compared with its last entry

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index e8f220b..a363343 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -244,7 +244,7 @@ class Productionfn:
         iso=self.getplotdata(presentation,a0)
         if ef:
             e=ef.getplotdata(presentation)
-            j= gm.value_locate(e['d'], iso['d'])
+            j= np.clip(gm.value_locate(e['d'], iso['d']), 0, None) # below first tabulated diameter, compare with the first
             q= gm.where(iso['y'] < e['y'][j] * .8)
             iso={'presentation':presentation,'d':iso['d'][q],'y':iso['y'][q]}
 
-- 
2.43.0


From 173a969069009ef4d3efdb42b90abf7fe7f8c728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 09/71] fix: epoch systems with non-integer reference diameters
 could not be used

---
 src/craterstats/Epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index 2d25d21..d086271 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -32,7 +32,7 @@ class Epochs:
         self.name = definition['name']
         self.epoch = definition['epoch']
         self.formatting = definition['formatting']
-        self.ref_diameter = [int(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
+        self.ref_diameter = [float(e) for e in definition['ref_diameter']] if 'ref_diameter' in definition else None
         self.density = [float(e) for e in definition['density']] if 'density' in definition else None
         self.time = [float(e) for e in definition['time']] if 'time' in definition else None
         self.reference = definition['reference']
-- 
2.43.0


From e090b3a3d9194576bbdf46efac0f0e561800a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 10/71] fix: sequence probability table could not be produced

---
 src/craterstats/Craterpdf.py     | 2 +-
 src/craterstats/Craterplotset.py | 6 +++---
 src/craterstats/cli.py           | 3 +++
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/Craterpdf.py b/src/craterstats/Craterpdf.py
index 521785c..b1dfb28 100644
--- a/src/craterstats/Craterpdf.py
+++ b/src/craterstats/Craterpdf.py
@@ -48,7 +48,7 @@ class Craterpdf:
             q = np.where((b['d_min'] >= d_range[0]) & (b['d_max'] <= d_range[1]))
             self.k = np.sum(b['n_event'][q])
 
-        if not lam:
+        if lam is None:
             if bcc: #buffered count
                 if cc.perimeter is None:
                     sys.exit('Error: buffered-poisson calculation requires polygon perimeter in source file')
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index a9458d5..f2abcdc 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -752,7 +752,7 @@ class Craterplotset:
 
         # calculate sequence table
         show_self_comparison = False
-        cpl = [e for e in self.craterplot if e.type in ['poisson','buffered-poisson'] and not e.hide]
+        cpl = [e for e in self.craterplot if e.type in ['poisson','b-poisson'] and not e.hide]
         n = len(cpl)
         if n<2: return
         s=[['' for i in range(n+1)] for j in range(n+1)]
@@ -785,10 +785,10 @@ class Craterplotset:
         # combined pdf
 
         pdf3 = copy.deepcopy(pdf2[0])
-        pdf3.pdf = np.product([e.pdf for e in pdf2],0)
+        pdf3.pdf = np.prod([e.pdf for e in pdf2],0)
 
         rel_probs =  [e.relative_probability(t0) for e,t0 in zip(pdf2,t)]
-        compound_prob = np.product(rel_probs)
+        compound_prob = np.prod(rel_probs)
 
         worse = np.where(pdf3.pdf < compound_prob, pdf3.dt * pdf3.pdf, 0)
         prob_worse = sum(worse)/sum(pdf3.dt * pdf3.pdf)
diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6feb4fc..24e98da 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -467,6 +467,9 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         if f in {'csv'} and not cps.presentation == 'uncertainty':
             cps.create_summary_table(f_out=cps.out + '.' + f)
 
+    if args.sequence_table:
+        cps.create_sequence_table(cps.out + '_sequence.csv')
+
 def print_with_highlights(s):
     for line in s:
         if line != '' and line[0] == '*':
-- 
2.43.0


From ca7dfc4b2951557807e2b9671816f59462690b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 11/71] fix: percentiles within 0.0001 of 100 were rounded to
 100

---
 src/craterstats/gm/string/percentile_sigfigs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/string/percentile_sigfigs.py b/src/craterstats/gm/string/percentile_sigfigs.py
index 77aee58..d6b9d44 100644
--- a/src/craterstats/gm/string/percentile_sigfigs.py
+++ b/src/craterstats/gm/string/percentile_sigfigs.py
@@ -13,7 +13,12 @@ def percentile_sigfigs(p, sf=2):
     if p < 50:
         res = f"{p:.{sf}g}"
     else:
-        digits = len(f"{100 - p:.{sf}g}")
-        res = f"{p:.{max(digits - 2, 0)}f}"
+        s = f"{100 - p:.{sf}g}"
+        if 'e' in s: # below 0.0001: count places from the exponent
+            m, e = s.split('e')
+            digits = len(m.replace('.', '')) - 1 - int(e)
+        else:
+            digits = max(len(s) - 2, 0)
+        res = f"{p:.{digits}f}"
     return res
 
-- 
2.43.0


From 5d5b799974197da489133a440cb8069152bdb696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 12/71] fix: an apostrophe or lone quote in a text file cut off
 the rest of its line

---
 src/craterstats/config/functions.txt     | 2 +-
 src/craterstats/gm/file/read_textfile.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/config/functions.txt b/src/craterstats/config/functions.txt
index 3ceb344..ec4852e 100644
--- a/src/craterstats/config/functions.txt
+++ b/src/craterstats/config/functions.txt
@@ -402,7 +402,7 @@ chronology={
 chronology_system={
   body='Vesta'
   name="Vesta, Marchi & O'Brien (2014)"
-  cf="Vesta, O'Brien et al. (2014)""
+  cf="Vesta, O'Brien et al. (2014)"
   pf='Vesta, Marchi et al (2013) [inferred, NS]'
 }
 
diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index b2bcf10..758509f 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -32,7 +32,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
         s = [e for e in s if not e.lstrip().startswith('#')]
 
     if strip is not None:
-        c = re.compile(r'(("[^"]*?")|(\'[^\']*?\')|[^;\'"]*)*') # avoid splitting within quoted string
+        c = re.compile(r'(("[^"]*?")|(\'[^\']*?\')|[^;\'"]+|[\'"])*') # avoid splitting within quoted string, lone quotes are plain
         s = [c.match(e)[0] for e in s]
 
     if as_string:
-- 
2.43.0


From 3b74938a7bcd6fd15e14627794e4a02b140b4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 13/71] fix: file names containing parentheses, quotes or other
 punctuation were split in the wrong place

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index 6b0eaef..c62106d 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -24,7 +24,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     if type(f) is list:
         return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
 
-    m = re.search(r'(?P<path>.*?)(?P<name>[\.,= \w-]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
+    m = re.search(r'(?P<path>.*?)(?P<name>[^\\/:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
     name=m['name']
     ext = m['ext']
-- 
2.43.0


From ff54ea38b35d5d0c88a5db79c80aba8ce329da78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 14/71] fix: max_ext_length was ignored for lists of file names

---
 src/craterstats/gm/file/filename.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/filename.py b/src/craterstats/gm/file/filename.py
index c62106d..f0e2003 100644
--- a/src/craterstats/gm/file/filename.py
+++ b/src/craterstats/gm/file/filename.py
@@ -22,7 +22,7 @@ def filename(f,code,insert1=None,insert2=None,max_ext_length=4):
     '''
 
     if type(f) is list:
-        return [filename(e,code,insert1=insert1,insert2=insert2) for e in f]
+        return [filename(e,code,insert1=insert1,insert2=insert2,max_ext_length=max_ext_length) for e in f]
 
     m = re.search(r'(?P<path>.*?)(?P<name>[^\\/:]*?)(?P<ext>(\.\w{1,'+str(max_ext_length)+'})?$)', f)
     path=m['path']
-- 
2.43.0


From 73a8569f95dcf6c61f84034a08323cbd91f4eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 15/71] fix: a blank or commented-out line inside a table
 raised IndexError

---
 src/craterstats/gm/file/read_textstructure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e57b5ee..e564c2a 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -30,6 +30,7 @@ def simple_value(s):
         r={t:[] for t in tag}
         for row in w[1:]:
             v=quoted_split(row)
+            if not v: continue
             if v[0]=='}': break
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
-- 
2.43.0


From b97caf77da1aea9c41fb34daaa5363e9a4e3d000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 16/71] fix: a tab after a value, list or table heading became
 part of it

---
 src/craterstats/gm/file/read_textstructure.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index e564c2a..837c8d6 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -15,17 +15,17 @@ def simple_value(s):
         s=s[1:]
     
     if s.startswith('['):
-        w=s.strip('[] \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        w=s.strip('[] \t\n').split(',')
+        r=[strip_quotes(e.strip(' \t\n')) for e in w]
         
     elif s.startswith('('):   
-        w=s.strip('() \n').split(',')
-        r=[strip_quotes(e.strip('\n ')) for e in w]
+        w=s.strip('() \t\n').split(',')
+        r=[strip_quotes(e.strip(' \t\n')) for e in w]
     
     elif s.startswith('{'):  #declare ascii table: should be field names after (otherwise, was structure)
         w=s.splitlines()
         tag0=w[0].split(',')      
-        tag=[e.strip('{ ') for e in tag0]      
+        tag=[e.strip('{ \t') for e in tag0]      
         
         r={t:[] for t in tag}
         for row in w[1:]:
@@ -35,7 +35,7 @@ def simple_value(s):
             for t in tag:
                 r[t].append(v.pop(0) if len(v)>0 else '')
     else: 
-        r=strip_quotes(s.strip(' \n'))
+        r=strip_quotes(s.strip(' \t\n'))
     
     return r
 
-- 
2.43.0


From 8a83df0c1531ec71d75a0f79a805ecea4532f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 17/71] fix: repeated tags with list values were merged into
 one list

---
 src/craterstats/gm/file/read_textstructure.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 837c8d6..161eb97 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -40,6 +40,10 @@ def simple_value(s):
     return r
 
 
+class Repeated(list):
+    '''values of a repeated tag (distinct from a single tag with a list value)'''
+
+
 def merge(s1, sr):
     '''merge single tag structure into cumulative structure'''
 
@@ -49,8 +53,8 @@ def merge(s1, sr):
     if type(sr) != dict: return s1
     s1_tag=list(s1)[0]
     if s1_tag in list(sr):
-        if type(sr[s1_tag]) != list:
-            sr.update({s1_tag:[s1[s1_tag]]+[sr[s1_tag]]})    
+        if type(sr[s1_tag]) != Repeated:
+            sr.update({s1_tag:Repeated([s1[s1_tag], sr[s1_tag]])})
         else:
             sr[s1_tag].insert(0,s1[s1_tag]) 
     else:
-- 
2.43.0


From c7286e17e261d849d2886b0a7b45a2d6581a6e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 18/71] fix: a tag followed by a tab was lost, its definition
 becoming part of the previous value

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index 161eb97..c2114e6 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -78,7 +78,7 @@ def evaluate(s):
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
                 r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
                 r"(?P<value>.*?))"
-                r"^\s*(?P<keyword2>[\w\.]*\^?) *="
+                r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
       
     if not m: return None #no definitions to process
-- 
2.43.0


From 46ba84e18029f9886cbd4604fb365d4076897f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 19/71] fix: a text block ran on to the end of the last text
 block in the file

---
 src/craterstats/gm/file/read_textstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textstructure.py b/src/craterstats/gm/file/read_textstructure.py
index c2114e6..cdb2198 100644
--- a/src/craterstats/gm/file/read_textstructure.py
+++ b/src/craterstats/gm/file/read_textstructure.py
@@ -76,7 +76,7 @@ def evaluate(s):
 
     m=re.search(r"(?ms)^\s*(?P<keyword>[\w\.]*\^?)\s*=\s*"
                 r"(\{\s+(?P<struct_value>(\{[a-zA-Z].*?\}|[^{}]*?)*?)^\s*\}.*?|"
-                r"\"\s*$(?P<text_value>[^{]*)^\s*\".*?|"
+                r"\"\s*$(?P<text_value>[^{]*?)^\s*\".*?|"
                 r"(?P<value>.*?))"
                 r"^\s*(?P<keyword2>[\w\.]*\^?)[ \t]*="
                 ,s+"\nend=")
-- 
2.43.0


From b456b0bab97b37da162f3b0e8a5c4e1950d91b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 20/71] fix: abbreviations containing brackets or other
 punctuation were taken as regular expressions

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 24e98da..d5450a0 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -146,7 +146,7 @@ def decode_abbreviation(s,v,one_based=False,allow_ambiguous=False,allow_invalid=
 
     #perhaps add back index selection requiring # prefix?
 
-    regex = '(?i)' + '.*'.join(v)
+    regex = '(?i)' + '.*'.join([re.escape(e) for e in v])
     res = [(i,e) for i,e in enumerate(s) if re.search(regex, e) is not None]
     res.sort(key=lambda x: len(x[1]))
     if len(res) == 0:
-- 
2.43.0


From 22dfa4d21fdc5d531a8b1bfb82c49fb5ed391fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 21/71] fix: saved command files lost the quoting of values
 beginning with a dash and failed on empty values

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index d5450a0..194c85a 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -535,7 +535,7 @@ def main(args0=None):
     cpl = [cst.Craterplot(d) for d in cp_dicts]
     cps.craterplot=cpl
 
-    cs_content = ''.join(['\n'+e if e[0]=='-' and not (e+' ')[1].isdigit() else ' '+shlex.quote(e) for e in args0])[1:]
+    cs_content = ''.join([('\n' if e[:1]=='-' and not e[1:2].isdigit() else ' ')+shlex.quote(e) for e in args0])[1:]
 
     if args.convert:
         convert_format(args, cps, cs_content)
-- 
2.43.0


From fe738da6be46be56cde25134a769476e9a8da6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 22/71] fix: giving an existing directory as output raised
 NameError

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 194c85a..2a72b98 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -432,7 +432,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
         case None:
             cps_dict['out'] = default_filename
         case _ if os.path.isdir(cps_dict['out']):
-            cps_dict['out'] = os.path.normpath(v + '/' + gm.filename(default_filename,'n'))
+            cps_dict['out'] = os.path.normpath(cps_dict['out'] + '/' + os.path.basename(default_filename))
 
 def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_result=None):
     def savefig(tag=''):
-- 
2.43.0


From 3255bb8213835b978b9596ff7c591543ccbb5cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 23/71] fix: default output name lost the separator between
 sources tagged CRATER

---
 src/craterstats/cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 2a72b98..dbe4cc3 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -424,8 +424,7 @@ def set_default_filename(args,cps_dict,cp_dicts):
             if cps_dict['presentation'] == 'uncertainty':
                 default_filename += f'_{cps_dict['min_diameter']}'
         else:
-            default_filename = '_'.join(sorted(set([gm.filename(d['source'], 'n') for d in cp_dicts]))) if cp_dicts else 'out'
-            default_filename = re.sub(r'_?CRATER_?', '', default_filename) # remove if present from shp file
+            default_filename = '_'.join(sorted(set([re.sub(r'_?CRATER_?', '', gm.filename(d['source'], 'n')) for d in cp_dicts]))) if cp_dicts else 'out' # remove tag if present from shp file
         if cps_dict['presentation'] in ('chronology', 'rate', 'uncertainty', 'map','m2cnd','sdaa'):
             default_filename += "_" + cps_dict['presentation']
     match cps_dict['out']:
-- 
2.43.0


From 70bd5807363c3fbea24c229460b7c7a7db2bcc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 24/71] fix: the format given by the extension of the output
 name was dropped when -f was also given

---
 src/craterstats/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index dbe4cc3..72882bb 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -169,6 +169,7 @@ def construct_cps_dict(args,c,f):
     if c['presentation']=='sequence':
         c['legend']='A'
 
+    ext = ''
     for k,v in vars(args).items():
         if v is not None:
             if k in ('title',
@@ -202,12 +203,11 @@ def construct_cps_dict(args,c,f):
                 else:
                     c[k] = gm.filename(v, 'pn')
                     ext = gm.filename(v, 'e').lstrip('.')
-                    if ext: c['format'].add(ext)
             elif k in 'format':
                 c[k]=set(v)
             elif k in 'measures':
                 c[k]=set(v.split(','))
-
+    if ext: c['format'].add(ext)
 
 
     cs=next((e for e in f['chronology_system'] if e['name'] == c['chronology_system']), None)
-- 
2.43.0


From 6ede44b13918cd549bee048e43a774be0dd4363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 25/71] fix: output names containing a dot were cut at it when
 no format followed

---
 src/craterstats/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 72882bb..38acd07 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -201,8 +201,12 @@ def construct_cps_dict(args,c,f):
                 if os.path.isdir(v):
                     c[k] = os.path.normpath(v+'/')
                 else:
-                    c[k] = gm.filename(v, 'pn')
                     ext = gm.filename(v, 'e').lstrip('.')
+                    if ext in ('png','tif','pdf','svg','csv'):
+                        c[k] = gm.filename(v, 'pn')
+                    else: # not a format: part of the name
+                        c[k] = v
+                        ext = ''
             elif k in 'format':
                 c[k]=set(v)
             elif k in 'measures':
-- 
2.43.0


From b6d7ec67f76315080c967c0fdedb3399f5abe794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 26/71] fix: file conversion ignored the requested output name
 or directory and could not read samples

---
 src/craterstats/cli.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 38acd07..e341c80 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -306,29 +306,30 @@ def construct_plot_dicts(args,plot,cps_dict):
 
 def convert_format(args, cps, cs_content):
     def outfile(name, out, ext):
-        if out != 'out':
-            if os.path.isdir(out):
-                outfile = out + name + ext
-            else:
-                outfile = gm.filename(out, 'pn') + ext
+        if args.out and os.path.isdir(args.out):
+            outfile = os.path.join(args.out, name + ext)
+        elif out != 'out':
+            outfile = re.sub(r'\.(stat|scc|shp|png|svg|pdf|tif|csv)$', '', out) + ext
         else:
             outfile = name + ext
         return outfile
 
     fmt, src = args.convert
-    scc = cst.Spatialcount(src.replace('%sample%/', cst.PATH + 'sample/'))
+    src = cs_source(src)
+    scc = cst.Spatialcount(src)
     fmt1 = fmt.lstrip(".")
     fmt0 = gm.filename(src,'e').lstrip(".")
+    named = args.out and not os.path.isdir(args.out)
     out = outfile(gm.filename(src, 'n'), cps.out, '.'+fmt1)
     match fmt1:
         case 'stat' if fmt0 in ['diam','scc','shp']:
             cc = cst.Cratercount(src)
-            out = gm.filename(out, 'p1e', cc.name)
+            if not named: out = gm.filename(out, 'p1e', cc.name)
             cc.WriteStatFile(out)
         case 'scc':
             if fmt0 == 'shp':
                 scc = cst.Spatialcount(src)
-                out = gm.filename(out, 'p1e', scc.name)
+                if not named: out = gm.filename(out, 'p1e', scc.name)
                 scc.writeSCCfile(out)
         case 'shp':
             if fmt0 == 'scc':
-- 
2.43.0


From cdc5f9dbda1d696418921a046c8c0b4100eba1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 27/71] fix: overplot values containing an equals sign were
 refused

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index e341c80..a6393c6 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -22,7 +22,7 @@ class AppendPlotDict(argparse.Action):
         d = {}
         for kv in re.split(r',(?=\w+=)',s): # only split on commas directly preceding keys
             try:
-                k, v = kv.split("=")
+                k, v = kv.split("=", 1)
             except:
                 sys.exit("Missing '=' in expression: " + option_string+' '+kv)
             d[k] = v
-- 
2.43.0


From aec96d09b19281c742bc94d7683fc1bf13f37900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 28/71] fix: plot type was carried over to overplots of another
 source

---
 src/craterstats/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index a6393c6..32f6730 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -247,11 +247,9 @@ def construct_plot_dicts(args,plot,cps_dict):
     if args.plot is None: return []
     for d in args.plot:
         p=plot.copy()
-        p['type'] = 'poisson' if cps_dict['presentation'] == 'sequence' else 'data' # set default
+        p['type'] = None
 
         if cpl: # for these items: if not given, carry over from previous
-            if p['source'] is None: # only carry type if source unchanged
-                p['type'] = cpl[-1]['type']
             for k in cst.CARRY_OVER_PROPERTIES:
                 p[k] = cpl[-1][k]
             #if p['source'] == cpl[-1]['source']: #only carry type if source unchanged
@@ -300,6 +298,11 @@ def construct_plot_dicts(args,plot,cps_dict):
         if not specified_source: sys.exit('Source not specified')
         if args.input and not os.path.isabs(p['source']): # if running from another dir or gui
             p['source'] = gm.filename(args.input_filename,'p') + p['source']
+        if p['type'] is None:
+            if cpl and p['source'] == cpl[-1]['source']: # only carry type if source unchanged
+                p['type'] = cpl[-1]['type']
+            else: # set default
+                p['type'] = 'poisson' if cps_dict['presentation'] == 'sequence' else 'data'
         p['cratercount'] = cst.Cratercount(p['source'])
         cpl += [p]
     return cpl
-- 
2.43.0


From 4d77fc1329d46c751bcdf775a78d3ec616d84373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 29/71] fix: a command file given by a relative path with a
 directory was not found

---
 src/craterstats/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 32f6730..885c574 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -39,6 +39,7 @@ class LoadFromFile(argparse.Action):
         if option_string in ('-i','--input'):
             self.work_dir = gm.filename(values,'p')
             if os.path.isdir(self.work_dir):
+                values = os.path.abspath(values)
                 os.chdir(self.work_dir)
         try:
             with open(values) as f:
-- 
2.43.0


From eb435f1135f01e644c54f4f20003f5e5fbb0733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 30/71] fix: an included settings file replaced the name of the
 command file

---
 src/craterstats/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 885c574..d2d2411 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -47,7 +47,8 @@ class LoadFromFile(argparse.Action):
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
                 parser.parse_args(shlex.split(a), namespace)
-                namespace.input_filename = f.name
+                if self.dest == 'input':
+                    namespace.input_filename = f.name
                 setattr(namespace, self.dest, True)
         except FileNotFoundError:
             raise argparse.ArgumentError(self, f"File not found: {values}")
-- 
2.43.0


From 3e9bcea903c13a3a84549cfa1d1b740665eb3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 31/71] fix: crater counts without a perimeter could not be
 merged

---
 src/craterstats/miscellaneous.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 31e45be..70ff706 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -141,13 +141,14 @@ def merge_cratercounts(args,equal_weight=False):
         d += cc.diam
         frac += fraction
         a += area
-        p += cc.perimeter
+        if cc.perimeter is not None:
+            p += cc.perimeter
 
     s = (['# Merged crater diameter file', '#----------------------------', '#']
            + ['# ' + gm.filename(f, "ne") for f in fs]
            + ['#']
            + [f"area = {a}"]
-           + [f"perimeter = {p}"]
+           + ([f"perimeter = {p}"] if p else [])
            + ['#',"crater = {diameter, fraction"]
            + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
            + ['}']
-- 
2.43.0


From 8942815da782c79393d273d8dc9edced1033876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 32/71] fix: merged crater counts lost digits of diameters and
 fractions

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 70ff706..58d107e 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -150,7 +150,7 @@ def merge_cratercounts(args,equal_weight=False):
            + [f"area = {a}"]
            + ([f"perimeter = {p}"] if p else [])
            + ['#',"crater = {diameter, fraction"]
-           + [f"{a:<12g}  {b:g}" for a,b in zip(d,frac)]
+           + [f"{a:<12}  {b}" for a,b in zip(d,frac)]
            + ['}']
          )
 
-- 
2.43.0


From eb796dc3fe0a8d35d3d7c3de05d3a1eb2136e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 33/71] fix: output names of merged crater counts were cut at a
 dot in them

---
 src/craterstats/miscellaneous.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index 58d107e..c6b434f 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -114,10 +114,11 @@ def merge_cratercounts(args,equal_weight=False):
     if len(fs)<2:
         sys.exit("Specify at least two crater count files.")
 
-    out=args.out
-    if not out:
+    if args.out:
+        out=re.sub(r'\.(diam|scc|stat|shp|txt|csv)$', '', args.out)
+    else:
         out='_'.join(sorted(gm.filename(fs, 'n')))
-    out = gm.filename(out, 'pn1', '.diam')
+    out += '.diam'
 
     d=[]
     frac=[]
-- 
2.43.0


From b852112c6a319997d603f576f7e6eab5df18fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 34/71] fix: exported tables with a single non-empty bin could
 not be read

---
 src/craterstats/Cratercount.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index 24ab357..eb07695 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -118,7 +118,12 @@ class Cratercount:
         }
         self.prebinned = True
         self.binning = 'pseudo-log'
-        self.MakeBinGeometricMean()
+        if len(diam) == 1 and nc >= 11: # only one bin: obtain its upper boundary from the mean diameter
+            d_mean = np.array([float(e[7]) for e in t])
+            d_max = d_mean**2/diam
+            self.binned.update({'d_mean': d_mean, 'bin_width': d_max-diam, 'd_max': d_max})
+        else:
+            self.MakeBinGeometricMean()
 
     def ReadDiamFile(self):
         s= gm.read_textstructure(self.filename)
-- 
2.43.0


From 487eeb76429a13db860538e9efb1d35f53224afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 35/71] fix: spatial scc reader ignored the crater fractions

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 138f648..d950186 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -62,7 +62,7 @@ class Spatialcount:
 
         crater=c['crater']
         diam=[float(e) for e in crater['diam']]
-        frac=[float(e) for e in crater['fraction']] if 'fraction' in c else [1. for e in diam]
+        frac=[float(e) for e in crater['fraction']] if 'fraction' in crater else [1. for e in diam]
         lon=[float(e) for e in crater['lon']]
         lat = [float(e) for e in crater['lat']]
         q=[i for i,e in sorted(enumerate(diam),key=lambda x:x[1])]     #get sorted indices
-- 
2.43.0


From 0e2c4fff2efbcd60a834dcfa58a3d6c600061822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 36/71] fix: holes of a unit boundary depended on its ring
 numbers, and rings inside a hole were taken as holes

---
 src/craterstats/Spatialcount.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index d950186..358e119 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -85,7 +85,7 @@ class Spatialcount:
             d[i] = (pts, p) #, xyz(pts)) # xyz needs to be moved out
             xr1 = gm.range([x for x,y in pts])
             yr1 = gm.range([y for x, y in pts])
-            if i == 1:
+            if i == z[0][0]:
                 xr=xr1
                 yr=yr1
             else:
@@ -96,8 +96,8 @@ class Spatialcount:
         for i, internal in z:
             if not internal:
                 holes=[]
-                for j, internal1 in z[i:]:
-                    if sph.within(d[j][1],d[i][1]):
+                for j, internal1 in z:
+                    if internal1 and sph.within(d[j][1],d[i][1]):
                         holes += [d[j][0]]
                 p += [sph.create_polygon(shell=d[i][0], holes=holes)]
 
-- 
2.43.0


From bc36a3190e15d698471f3242cd1a13fc82082f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 37/71] fix: further outer rings of a multi-part area were
 written as holes to scc files

---
 src/craterstats/Spatialcount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 358e119..168ec1f 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -213,7 +213,8 @@ class Spatialcount:
             pts += shape.points
             for j in range(len(shape.parts)):
                 n = parts[j + 1] - parts[j]
-                tag += ['ext' if j==0 else 'int'] * n
+                ring = shape.points[parts[j]:parts[j + 1]]
+                tag += ['ext' if j==0 or shapefile.is_cw(ring) else 'int'] * n # outer rings are clockwise in shapefiles
                 sub_area += [i] * n
                 i += 1
         boundary_table = [f"{i:<5}\t{a:<5}\t{b:<4}\t{c[0]:23.15f}\t{c[1]:23.15f}"
-- 
2.43.0


From 13565c4f961f4ff2fb0c5c9fdd2d4d04c32ccef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 38/71] fix: randomness analysis file without analysable bins
 could not be read back

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 0a35941..3762448 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -423,7 +423,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
         for measure in self.montecarlo:
             trials = (
-                ['trials  = {index, ' + ", ".join([b for b in self.montecarlo[measure]['trials']])]
+                [", ".join(['trials  = {index'] + [b for b in self.montecarlo[measure]['trials']])]
                 + ["\t".join([f"{t:<12}"] + [f"{v[t]:<12.7g}" for bin,v in self.montecarlo[measure]['trials'].items()])
                             for t in range(self.montecarlo[measure]['n_trials']) ]
                 + ['}'])
-- 
2.43.0


From 68d7efbcb5d2cc6c5fcc8a12d5d23b0adbddec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 39/71] fix: randomness analysis results of a shapefile were
 not found for its crater count

---
 src/craterstats/Cratercount.py        | 5 ++++-
 src/craterstats/Randomnessanalysis.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Cratercount.py b/src/craterstats/Cratercount.py
index eb07695..eff8d0d 100644
--- a/src/craterstats/Cratercount.py
+++ b/src/craterstats/Cratercount.py
@@ -52,7 +52,10 @@ class Cratercount:
         return self.filename
 
     def read_ra_file(self):
-        possible_locations = (self.name + '_ra.txt',gm.filename(self.filename,'p')+self.name+'_ra.txt')
+        name = self.name
+        if gm.filename(self.filename, 'e').lower() == '.shp':
+            name = re.sub(r'_?CRATER_?', '', name) # output of randomness analysis is named without tag
+        possible_locations = (name + '_ra.txt',gm.filename(self.filename,'p')+name+'_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 3762448..9bf63bd 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -437,7 +437,7 @@ class Randomnessanalysis(cst.Spatialcount):
 
     def read(self):
         # allow read from source file location, but write will still be to current dir or -o
-        possible_locations = (self.ra_file, gm.filename(self.filename, 'pn1','_ra.txt'))
+        possible_locations = (self.ra_file, gm.filename(self.filename, 'p') + self.name + '_ra.txt')
         f = next((loc for loc in possible_locations if gm.file_exists(loc)), None)
         if f:
             c = gm.read_textstructure(f)
-- 
2.43.0


From 6e4d969d67099f3709e120fc5d4d09359ac2c616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:36 +0000
Subject: [PATCH 40/71] fix: n_sigma chart and Hartmann axis failed with fewer
 than two power-of-two ticks

---
 src/craterstats/miscellaneous.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index c6b434f..f4e1eed 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -219,10 +219,12 @@ def Hartmann_bins(d_range):
     labels = [str(e) for e in
               (1, 2, 4, 8, 16, 31, 63, 125, 250, 500, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024)]
     labels[10] = '  ' + labels[10] + "km"
-    xtickv, xtickname = map(list, zip(*[(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]]))
-    if xtickv[0] < 0: xtickname[0] += 'm'
-    xminor = (xtickv[1] - xtickv[0]) / 2
-    xminorv = [e+xminor for e in [xtickv[0]-2*xminor]+xtickv if d_range[0] <= e+xminor <= d_range[1]]
+    in_range = [(val, txt) for val, txt in zip(v, labels) if d_range[0] <= val <= d_range[1]] # may be fewer than two
+    xtickv = [val for val, _ in in_range]
+    xtickname = [txt for _, txt in in_range]
+    if xtickv and xtickv[0] < 0: xtickname[0] += 'm'
+    xminor = (v[1] - v[0]) / 2
+    xminorv = [e+xminor for e in [v[0]-2*xminor]+v if d_range[0] <= e+xminor <= d_range[1]]
     return xtickv,xtickname,xminor,xminorv
 
 
-- 
2.43.0


From 695964c79263864c70bdfeab2c40331d9eec3f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 41/71] fix: randomness analysis trials on different worker
 processes repeated the same random configurations

---
 src/craterstats/Randomnessanalysis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index 9bf63bd..acde640 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -480,7 +480,9 @@ def run_trial(self_pp, b, n, trial_index):
     m, _ = evaluate_randomness(self_pp, pts, ids, hpd)
     return m
 
-def run_trial_wrapper(self_pp, b, n, trial_index, progress):
+def run_trial_wrapper(self_pp, b, n, trial_index, progress, seed=None):
+    if seed is not None:
+        np.random.seed(seed) # worker processes would otherwise repeat each other's sequence
     result = run_trial(self_pp, b, n, trial_index)
     if progress is not None:
         progress.value += 1 # Update shared progress
@@ -504,7 +506,8 @@ def montecarlo_pp(self_pp, b, n, progress_queue=None):
 
         with ProcessPoolExecutor(max_workers=self_pp.max_threads) as executor:
             trial_indices = range(self_pp.trials)
-            args = [(self_pp, b, n, trial_index, progress) for trial_index in trial_indices]
+            seed = np.random.randint(2**31 - 1) # differs between runs, but reproducible from the main process's seed
+            args = [(self_pp, b, n, trial_index, progress, (seed, trial_index)) for trial_index in trial_indices]
 
             # Submit tasks to executor and track futures
             futures = [executor.submit(run_trial_wrapper, *arg) for arg in args]
-- 
2.43.0


From 7b6a81eab0dc8b52f391853ebc7a4a05df8b7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 42/71] fix: randomness analysis failed on a single processor

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index acde640..df8ff5d 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -30,7 +30,7 @@ class Randomnessanalysis(cst.Spatialcount):
         super().__init__(filename,area_file)
         self.init_Cratercount()
         self.montecarlo = {}
-        self.max_threads = os.cpu_count()-1
+        self.max_threads = max(1, (os.cpu_count() or 1)-1)
         self.ra_file = (out if out else self.name) + "_ra.txt"
         self.progress_queue = progress_queue
         self.read()
-- 
2.43.0


From 886d9e8d8b0afdcf7deb71e009a9e1a2f7bef1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 43/71] fix: randomness analysis of a large area with few
 trials failed on its search grid

---
 src/craterstats/Randomnessanalysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Randomnessanalysis.py b/src/craterstats/Randomnessanalysis.py
index df8ff5d..bd840cb 100644
--- a/src/craterstats/Randomnessanalysis.py
+++ b/src/craterstats/Randomnessanalysis.py
@@ -60,7 +60,7 @@ class Randomnessanalysis(cst.Spatialcount):
         desired_nbins = n/10
         desired_bin_area = self.area / desired_nbins
         desired_n_hpx = area_globe / desired_bin_area
-        nside = 2**round(np.log2(math.sqrt(desired_n_hpx/12)))
+        nside = 2**max(0, round(np.log2(math.sqrt(desired_n_hpx/12)))) # at least whole base cells
         self.hp = hpx.HEALPix(nside=nside, order='nested')
 
     def oplot_neighbours(self,cps,craters,neighbours,ax=None):
-- 
2.43.0


From 89caa42ab6a5b79b1484b05f44edaff8507dfba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 44/71] fix: random placement missed the north of areas that
 contain both poles

---
 src/craterstats/Spatialcount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 168ec1f..5a71596 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -196,7 +196,7 @@ class Spatialcount:
             yr = (miny, 90)
             xr = (-180,180)
         if sph.covers(self.polygon, s_pole):
-            yr = (-90, maxy)
+            yr = (-90, yr[1])
             xr = (-180, 180)
         self.xr=xr
         self.yr=yr
-- 
2.43.0


From fdd713f592b96ab9cc98d7e75cce5a4811ab40b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 45/71] fix: division of widely spaced ticks failed when more
 minor ticks were allowed than the finest division has

---
 src/craterstats/gm/plotting/ticks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/plotting/ticks.py b/src/craterstats/gm/plotting/ticks.py
index ab78749..997190d 100644
--- a/src/craterstats/gm/plotting/ticks.py
+++ b/src/craterstats/gm/plotting/ticks.py
@@ -44,7 +44,7 @@ def ticks(x, max_ticks, max_minor=None):
         choice = [1, 2, 4, 10] if nice_fraction==2 else [1,2,5,10]
         b=max_minor/(n_ticks-1)
         j = np.searchsorted(choice,b)
-        minor_ticks=choice[j]
+        minor_ticks=choice[min(j, len(choice)-1)]
         return ticks,minor_ticks
 
     return ticks
-- 
2.43.0


From f47197b11f35bd692fb3840834af3e4214040392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 46/71] fix: automatic axes were lost with an overplot without
 plottable data among others, or with none that can be plotted

---
 src/craterstats/Craterplotset.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index f2abcdc..78ea9bd 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -606,10 +606,11 @@ class Craterplotset:
         ranges = []
         for cp in self.craterplot:
             try:
-                ranges.append(cp.get_data_range(self))
+                r = cp.get_data_range(self)
+                if np.all(np.isfinite(r)): ranges.append(r)
             except Exception: # non-cml, binning=none. This is ugly - better to test and skip these (and hidden plots)
                 pass
-        x0, x1, y0, y1 = zip(*ranges) if ranges else  (*cst.DEFAULT_XRANGE[self.presentation], *cst.DEFAULT_YRANGE[self.presentation])
+        x0, x1, y0, y1 = zip(*ranges) if ranges else ((np.nan,),)*4 # nothing plottable: defaults below
 
         mx = (.3, .8) # minimum empty margin
         my = [e * (2 if self.presentation=='differential' else 1) for e in [.3,.3]] # minimum empty margin
-- 
2.43.0


From 36015a7e8bc6899ca589ad8496622372cdcf7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 47/71] fix: two ticks over a range that contains zero came out
 as NaN

---
 src/craterstats/gm/plotting/ticks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/gm/plotting/ticks.py b/src/craterstats/gm/plotting/ticks.py
index 997190d..28a78f9 100644
--- a/src/craterstats/gm/plotting/ticks.py
+++ b/src/craterstats/gm/plotting/ticks.py
@@ -22,6 +22,7 @@ def ticks(x, max_ticks, max_minor=None):
     max_ticks = np.clip(max_ticks, 2, None)
 
     range = gm_range(x)
+    if range[0] < 0 < range[1]: max_ticks = max(max_ticks, 3) # two steps always meet at zero
     mag = gm_mag(range)
 
     multiplier = 1.
-- 
2.43.0


From 4d19b150b094f4c649cd23f9329cbb57df666f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 48/71] fix: densities labelled N(d_ref) in the legend and the
 summary table were those of N(1)

---
 src/craterstats/Craterplot.py    | 4 ++--
 src/craterstats/Craterplotset.py | 8 +++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index c9517cb..d9db064 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -94,7 +94,7 @@ class Craterplot:
             self.t = [cps.cf.t(a0=e) for e in self.a0]
             self.bin_range=p0['bin_range']
 
-        self.n_d = cps.pf.evaluate("cumulative", cps.ref_diameter, self.a0[0])
+        self.n_d = [cps.pf.evaluate("cumulative", cps.ref_diameter, e) for e in self.a0]
 
     # def oplot_n_sigma(self,cps):
     #
@@ -258,7 +258,7 @@ class Craterplot:
                     r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
-                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(10**self.a0[0],10**self.a0[2],10**self.a0[1], unit='km-2')]
+                legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(self.n_d[0],self.n_d[2],self.n_d[1], unit='km-2')]
 
 
         if self.type=='data':
diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 78ea9bd..cb4f317 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -711,17 +711,15 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
-                if k in ('range','bin_range','t','a0'):
+                if k in ('range','bin_range','t','a0','n_d'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
                     if k in ('range','bin_range'):
                         txt_range=gm.diameter_range(d[k])
-                elif k=='n_d':
-                    v = ','.join([f"{10**e:{f}}" for e in d['a0']])
                 elif k in ('Latex','MathML'):
                     t = d['t']
                     v0 = cst.str_age(t[0], t[2] - t[0], t[0] - t[1], mu=self.mu, MathML = k=='MathML')
-                    a0 = d['a0']
-                    v1 = gm.scientific_notation(10**a0[0],10**a0[2],10**a0[1], unit='km-2', MathML = k=='MathML')
+                    n_d = d['n_d']
+                    v1 = gm.scientific_notation(n_d[0],n_d[2],n_d[1], unit='km-2', MathML = k=='MathML')
                     v=v0+','+v1
                 elif k==' ':v=' '
                 elif k == 'Range':
-- 
2.43.0


From 5b2f701abadb3ed404beecb45d0450bdd59ca93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 49/71] fix: diameter range in the summary table depended on
 the method of its last row

---
 src/craterstats/Craterplotset.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index cb4f317..0075a2a 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -682,7 +682,7 @@ class Craterplotset:
         table = (('name', '24', '', None),
                  ('area', '8', '.5g', None),
                  ('binning', '>10', '', None),
-                 ('bin_range' if d['type'] in ('c-fit','d-fit') and d['resurf'] != 1 else 'range', '5', '.2g', ('d_min', 'd_max')),
+                 ('range', '5', '.2g', ('d_min', 'd_max')),
                  ('type', '>9', '', ('Method',)),
                  ('resurf', '6', '', None),
                  ('n', '7', '', None),
@@ -711,9 +711,11 @@ class Craterplotset:
             for k,w,f,_ in table:
                 if k=='name' and d[k]=='':
                     d[k]= gm.filename(d['source'], 'n')
-                if k in ('range','bin_range','t','a0','n_d'):
+                if k=='range' and d['type'] in ('c-fit','d-fit') and d['resurf'] != 1:
+                    d[k] = d['bin_range']
+                if k in ('range','t','a0','n_d'):
                     v = ','.join([f"{e:{f}}" for e in d[k]])
-                    if k in ('range','bin_range'):
+                    if k=='range':
                         txt_range=gm.diameter_range(d[k])
                 elif k in ('Latex','MathML'):
                     t = d['t']
-- 
2.43.0


From d239e6e244d818eebb0202ab0d9d615f1f2c5197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 50/71] fix: legend of a fit over an unconstrained diameter
 range could not be made

---
 src/craterstats/Craterplot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index d9db064..aba8c06 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -255,7 +255,10 @@ class Craterplot:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
                     r=self.range
                 else:
-                    r=gm.range(self.cratercount.generate_bins(self.binning,self.range,expand=False))
+                    r=list(self.range)
+                    if r[0] == 0: r[0] = self.cratercount.binned['d_min'][0]
+                    if r[1] == np.inf: r[1] = self.cratercount.binned['d_max'][-1]
+                    r=gm.range(self.cratercount.generate_bins(self.binning,r,expand=False))
                 legend_label += [gm.diameter_range(r)]
             if 'N' in cps.legend:
                 legend_label += [f'N({cps.ref_diameter:0g})' +'=' + gm.scientific_notation(self.n_d[0],self.n_d[2],self.n_d[1], unit='km-2')]
-- 
2.43.0


From 23fb60c50d4ac0226e66dde5caefe9606117feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 51/71] fix: legend failed for crater numbers with fractional
 event counts

---
 src/craterstats/Craterplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplot.py b/src/craterstats/Craterplot.py
index aba8c06..cb1e1d6 100644
--- a/src/craterstats/Craterplot.py
+++ b/src/craterstats/Craterplot.py
@@ -249,7 +249,7 @@ class Craterplot:
                     if np.abs(self.n_event - self.n) < .001:
                         legend_label += [f'{self.n:0g}']
                     else:
-                        legend_label += [f'{self.n:.1f} (of {self.n_event:d})']
+                        legend_label += [f'{self.n:.1f} (of {self.n_event:.0f})']
                 legend_label[-1] += " craters" + (" (buffered)" if self.cratercount.buffered or self.type=='b-poisson' else "")
             if 'r' in cps.legend:
                 if not self.cratercount.prebinned and self.type in ['poisson','b-poisson']:
-- 
2.43.0


From 223fb8e2917a71efefd8e4c0a198d368b2c2fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:26 +0000
Subject: [PATCH 52/71] fix: names and paths with commas or quotes shifted the
 columns of the summary and sequence tables

---
 src/craterstats/Craterplotset.py       |  5 +++--
 src/craterstats/gm/string/__init__.py  |  1 +
 src/craterstats/gm/string/csv_field.py | 16 ++++++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)
 create mode 100644 src/craterstats/gm/string/csv_field.py

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 0075a2a..05576b1 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -728,6 +728,7 @@ class Craterplotset:
                     v=txt_range
                 else:
                     v = f"{d[k]:{f}}"
+                    if k in ('name','source'): v = gm.csv_field(v)
                 ln+=[v]
             st += '\n'+','.join(ln)+'," "'
 
@@ -760,7 +761,7 @@ class Craterplotset:
 
         for i in range(n):
             cpl[i].calculate_age(self)
-            s[i][0]=cpl[i].name
+            s[i][0]=gm.csv_field(cpl[i].name)
 
         for i in range(n):
             for j in range(i if show_self_comparison else i+1,n):
@@ -768,7 +769,7 @@ class Craterplotset:
                 s[i][j+1] = gm.sigfigs(1.-P,2)
                 s[j][i+1] = gm.sigfigs(P,2)
 
-        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([cpl[i].name for i in range(n)])]+[','.join(e) for e in s])
+        st='Table of probability that t(x)>t(y)\n'+'\n'.join([','+','.join([gm.csv_field(cpl[i].name) for i in range(n)])]+[','.join(e) for e in s])
 
         # calculate probability of simultaneous formation vs median time formation
 
diff --git a/src/craterstats/gm/string/__init__.py b/src/craterstats/gm/string/__init__.py
index 7f60b16..62fb8c1 100644
--- a/src/craterstats/gm/string/__init__.py
+++ b/src/craterstats/gm/string/__init__.py
@@ -3,6 +3,7 @@
 
 from .bright import bright
 #from .decode_abbreviation import decode_abbreviation
+from .csv_field import csv_field
 from .diameter_range import diameter_range
 from .percentile_sigfigs import percentile_sigfigs
 from .quoted_split import quoted_split
diff --git a/src/craterstats/gm/string/csv_field.py b/src/craterstats/gm/string/csv_field.py
new file mode 100644
index 0000000..b0ab53b
--- /dev/null
+++ b/src/craterstats/gm/string/csv_field.py
@@ -0,0 +1,16 @@
+#  Copyright (c) 2021-2026, Greg Michael
+#  Licensed under BSD 3-Clause License. See LICENSE.txt for details.
+
+from .strip_quotes import strip_quotes
+
+def csv_field(s):
+    """
+    Text as a single field of a comma-separated table: quoted only if necessary
+
+    :param s: text
+    :return: field
+    """
+    s = strip_quotes(s)
+    if any(c in s for c in ',"\r\n'):
+        s = '"' + s.replace('"', '""') + '"'
+    return s
-- 
2.43.0


From d5f87eb28f1881ae4b79ea7186b0ee4e024b375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 53/71] fix: plot symbols were scaled once more each time the
 same plot set was drawn

---
 src/craterstats/Craterplotset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 05576b1..459a72d 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -186,6 +186,7 @@ class Craterplotset:
 
 # set up marker size
         f = self.decades[0] * self.print_scale / 7.5
+        self.marker_def = [e[2].copy() for e in cst.MARKERS]
         for e in self.marker_def:
             e['markersize'] *= 0.8 * f  # * self.print_scale/1.875
             e['markeredgewidth'] = .5 * f  # * self.print_scale/1.875
-- 
2.43.0


From 380ac1ed2300b3f7c25c6e6e95a24278ac238553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 54/71] fix: command files with non-ASCII text were read in the
 locale's encoding, not the one they are written in

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index d2d2411..23ab64c 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -42,7 +42,7 @@ class LoadFromFile(argparse.Action):
                 values = os.path.abspath(values)
                 os.chdir(self.work_dir)
         try:
-            with open(values) as f:
+            with open(values, encoding='utf-8-sig') as f: # as written, whatever the locale
                 # parse arguments in the file and store them in the target namespace
                 a=f.read()
                 a=('\n').join([e for e in a.split('\n') if e.strip() and not e.strip().startswith('#')] ) #remove '#' commented lines
-- 
2.43.0


From 42fd4bab82026a890bd5ad0a0f7c7c409ce70de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 55/71] fix: a unit of several parts could not be converted to
 shapefiles

get_exterior_ring() of a multipolygon is None: decompose it into its parts first.
---
 src/craterstats/Spatialcount.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 5a71596..8922fc5 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -322,13 +322,13 @@ class Spatialcount:
         decomposed=[]
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
-            y = shp.from_wkb(z)
-            x = shp.get_exterior_ring(y)
-            rings = [list(x.coords)]
-            for j in range(shp.get_num_interior_rings(y)):
-                x = shp.get_interior_ring(y,j)
-                rings.append(list(x.coords))  # Append holes
-            decomposed += [rings]
+            for y in shp.get_parts(shp.from_wkb(z)): # multipolygon may have several parts
+                x = shp.get_exterior_ring(y)
+                rings = [list(x.coords)]
+                for j in range(shp.get_num_interior_rings(y)):
+                    x = shp.get_interior_ring(y,j)
+                    rings.append(list(x.coords))  # Append holes
+                decomposed += [rings]
         return decomposed
 
 
-- 
2.43.0


From 885929e9b8b365b568a8b903d1d223cda2e8ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:06 +0000
Subject: [PATCH 56/71] fix: area shapefiles were written with the outer rings
 anticlockwise and the holes clockwise

The shapefile format has it the other way round; read back for conversion
to .scc, such a hole was tagged as another outer boundary.
---
 src/craterstats/Spatialcount.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/craterstats/Spatialcount.py b/src/craterstats/Spatialcount.py
index 8922fc5..5fd14a3 100644
--- a/src/craterstats/Spatialcount.py
+++ b/src/craterstats/Spatialcount.py
@@ -323,6 +323,7 @@ class Spatialcount:
         for p in p0 if isinstance(p0, list) else [p0]:
             z = sph.to_wkb(p)
             for y in shp.get_parts(shp.from_wkb(z)): # multipolygon may have several parts
+                y = shp.geometry.polygon.orient(y, sign=-1.) # shapefile: outer ring clockwise, holes counter-clockwise
                 x = shp.get_exterior_ring(y)
                 rings = [list(x.coords)]
                 for j in range(shp.get_num_interior_rings(y)):
-- 
2.43.0


From 20714219363f5a7825f305a541f88daee4ce3875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:16 +0000
Subject: [PATCH 57/71] fix: legend without fit items dropped the entry of the
 data set drawn after a fit

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 459a72d..884f560 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -539,8 +539,8 @@ class Craterplotset:
                 skip=False
                 continue
             if e=='fit':
-                skip = True
-                if set(self.legend) & set('crN') != set():
+                skip = set(self.legend) & set('crN') != set() # otherwise fit has no entry of its own following
+                if skip:
                     h1.append((h[i],h[i+1]))
                     b1.append(b[i+1])
             else:
-- 
2.43.0


From df0b84849676292c6697c8726e779a51d1881b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 58/71] fix: a differential fit starting with a single-crater
 bin had an undefined lower age limit, and its summary table failed

---
 src/craterstats/Productionfn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index a363343..ac3b3d8 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -208,7 +208,7 @@ class Productionfn:
                 func, sigma = self.F10, 1 / np.sqrt(err)
 
         popt, pcov = sc.curve_fit(func, np.log10(d), np.log10(y),sigma=sigma)
-        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*err[0]),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
+        a0=popt[0]-[0,np.log10(y[0])-np.log10(y[0]-.98*np.minimum(err[0],y[0])),np.log10(y[0])-np.log10(y[0]+.98*err[0])]
         return a0
 
 
-- 
2.43.0


From ad16c287d372f7f7afe11a8fcb8d1139f4c654b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 59/71] fix: colours of the crater-number chart did not match
 its scale unless the chart held both 0 and more than 7 craters

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 884f560..971cac2 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -953,7 +953,7 @@ class Craterplotset:
 
         if plt == 'k':
             im = np.flip(np.transpose(np.clip(kk, 0, 8)), 1)
-            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', extent=[0, 1, 0, 1])
+            imo = self.ax.imshow(im, cmap_k, origin="lower", interpolation='none', alpha=None, aspect='auto', vmin=0, vmax=8, extent=[0, 1, 0, 1])
             cbar = self.fig.colorbar(imo, self.ax_cbar, ticks=[0.5, 1.5, 2.5, 3.5, 4.5, 5.5, 6.5, 7.5])
             cbar.ax.set_yticklabels(['0', '1', '2', '3', '4', '5', '6', '7+'])
             cbar.set_label('$k$' + diameter_text, rotation=90)
-- 
2.43.0


From af53b27487ac93fcc5d23faa1a3c20488d62d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:25 +0000
Subject: [PATCH 60/71] fix: the uncertainty chart showed no saturated area
 when all of its ages were saturated

---
 src/craterstats/Craterplotset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index 971cac2..eed9213 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -932,6 +932,8 @@ class Craterplotset:
             T_eq = self.cf.t(n1=C_ef_dmin * C[1] / C[0])
 
             match np.searchsorted([self.t_min, self.t_crossover, self.t_max], T_eq):
+                case 0: # saturated throughout
+                    x_exceed = 1.
                 case 1:
                     x_exceed = (self.xfrac_linear + (1 - self.xfrac_linear) *
                                 (np.log10(self.t_crossover) - np.log10(T_eq)) /
-- 
2.43.0


From a854e4c00d946188952319e4206d2c07aad280ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:30 +0000
Subject: [PATCH 61/71] fix: -text_halo 0 was ignored: the legend halo could
 not be switched off

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 23ab64c..6194895 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -237,7 +237,7 @@ def construct_cps_dict(args,c,f):
         else:
             c['xrange'] = cst.DEFAULT_XRANGE['Hartmann']
             c['yrange'] = cst.DEFAULT_YRANGE['Hartmann']
-    if not c['text_halo']:
+    if c['text_halo'] is None:
         c['text_halo'] = 0 if c['presentation'] in ('uncertainty','sequence','chronology','rate') else 1
 
     return c
-- 
2.43.0


From 0fdc1ea27c3058359ba7893bd5990f79a0d09fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 62/71] fix: a randomness analysis with two picture formats ran
 twice, the second under a name with _ra doubled

---
 src/craterstats/cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 6194895..0fa582d 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -448,10 +448,12 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
         cps.fig.savefig(cps.out + tag + '.' + f, dpi=500, transparent=cps.transparent,
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
+    ra = None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
-                ra = randomness_analysis(args, cps,progress_queue=progress_queue)
+                if ra is None: # one analysis for all formats
+                    ra = randomness_analysis(args, cps,progress_queue=progress_queue)
                 selection = cst.ra_decode_selection(args.select)
                 for measure in cps.measure:
                     if selection==[0]:
-- 
2.43.0


From ff21ec687cfa3a88dc106ee92ef4872f0601b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 63/71] fix: uncertainty charts were saved in one picture
 format only, an empty chart in any other

---
 src/craterstats/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 0fa582d..001c199 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -449,6 +449,7 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                         bbox_inches='tight' if args.tight else None, pad_inches=.02 if args.tight else None)
 
     ra = None
+    single_fig = age_area_result is not None
     for f in cps.format:
         if f in {'png', 'pdf', 'svg', 'tif'}:
             if args.randomness_analysis:
@@ -462,9 +463,10 @@ def write_output_files(args, cps, drawn = False,progress_queue=None, age_area_re
                     else:
                         ra.plot_montecarlo_split(cps, measure, selection=selection)
                         savefig(f'-{measure}')
-            elif cps.presentation == 'uncertainty' and age_area_result is None: # send to single fig output for gui
-                cps.calculate_time_axis_params()
-                age_area_result = cps.compute_age_area()
+            elif cps.presentation == 'uncertainty' and not single_fig: # send to single fig output for gui
+                if age_area_result is None:
+                    cps.calculate_time_axis_params()
+                    age_area_result = cps.compute_age_area()
                 for plt in ('k', 'err', 'age'):
                     cps.draw()
                     cps.age_area_plot(plt,age_area_result)
-- 
2.43.0


From 2c9ae53e51630ffe747478b8aa48720969ee3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:18 +0000
Subject: [PATCH 64/71] fix: randomness results lost everything after a dot in
 the requested name, so those of a.v1 and a.v2 shared one file

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index 001c199..ee6480f 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -409,7 +409,7 @@ def cs_source(v):
 
 
 def randomness_analysis(args,cps,progress_queue=None):
-    out = '' if cps.out=='out' or cps.out is None else gm.filename(cps.out,'pn')
+    out = '' if cps.out=='out' or cps.out is None else cps.out
     ra = cst.Randomnessanalysis(cs_source(args.randomness_analysis), out=out,progress_queue=progress_queue)
     cps.out = gm.filename(ra.ra_file,'pn')
     trials = args.trials if args.trials else cps.trials
-- 
2.43.0


From 0f6aaa50d3d3bcf175310a14b993adad372ae95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:08 +0000
Subject: [PATCH 65/71] fix: ticks of a narrow time axis were labelled with the
 wrong ages (3.05 Ga as 3)

---
 src/craterstats/Craterplotset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index eed9213..b81138f 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -350,7 +350,7 @@ class Craterplotset:
             xtickv0,minor_div = gm.ticks([self.t_min,self.t_max],6, max_minor=12)
             xtickv = [e for e in xtickv0 if self.t_min <= e <= self.t_max]
 
-        xticklabels = [f"{e:.2g}" for e in xtickv]
+        xticklabels = [f"{e:.4g}" for e in xtickv]
         xticklabels[-1] += ' Ga'
 
         xfrac_linear = lin_units / (lin_units + log_units)
-- 
2.43.0


From af9a2a1ba693210e2dd87a214aeea134610dceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:04 +0000
Subject: [PATCH 66/71] fix: chronology and rate charts named a fractional
 reference diameter wrongly (0.5 km as 0 km)

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index b81138f..c846679 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -201,8 +201,8 @@ class Craterplotset:
             'differential': 'Differential crater density, km$^{-3}$',
             'R-plot': 'Relative crater density (R)',
             'Hartmann':     'Craters per $√$2-bin'+(' (equivalent)' if nonroot2 else '')+', km$^{-2}$',
-            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$',
-            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'.0f')+' km), km$^{-2}$ Ga$^{-1}$',
+            'chronology':   'Cumulative crater density N(>'+format(self.ref_diameter,'0g')+' km), km$^{-2}$',
+            'rate':         'Crater formation rate N(>'+format(self.ref_diameter,'0g')+' km), km$^{-2}$ Ga$^{-1}$',
             }[self.presentation]
         
         title = ('\n'.join(self.title.split('|')) if self.title else None)
-- 
2.43.0


From eb4d2282e61cbc42ab7eb6dcb09e8c98d0f8063e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 67/71] fix: a missing file of user functions stopped the
 program, even the command to set another

---
 src/craterstats/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/miscellaneous.py b/src/craterstats/miscellaneous.py
index f4e1eed..e99d2d5 100644
--- a/src/craterstats/miscellaneous.py
+++ b/src/craterstats/miscellaneous.py
@@ -75,7 +75,7 @@ class Functionslist:
                 try:
                     s = s + gm.read_textfile(uf, ignore_hash=True, strip=';', as_string=True)
                 except:
-                    print("Unable to read user functions file: "+functions_user+" - ignoring.")
+                    print("Unable to read user functions file: "+uf+" - ignoring.")
         self.functions = gm.read_textstructure(s,from_string=True)
 
     def user_function_config(self):
-- 
2.43.0


From a7286b4f537b1ed7b3c9f2555f018b6f05b61ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 68/71] fix: a function could not be read from a file which
 defines no other (only from text)

---
 src/craterstats/Chronologyfn.py | 3 ++-
 src/craterstats/Epochs.py       | 3 ++-
 src/craterstats/Productionfn.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/craterstats/Chronologyfn.py b/src/craterstats/Chronologyfn.py
index 2b5ab9f..92eb6f7 100644
--- a/src/craterstats/Chronologyfn.py
+++ b/src/craterstats/Chronologyfn.py
@@ -31,9 +31,10 @@ class Chronologyfn:
             src=source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\nchronology={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
                 txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+            txt += '\nchronology={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
         
         self.definition=next((e for e in src['chronology'] if e['name']==identifier),None)
diff --git a/src/craterstats/Epochs.py b/src/craterstats/Epochs.py
index d086271..22a088c 100644
--- a/src/craterstats/Epochs.py
+++ b/src/craterstats/Epochs.py
@@ -20,9 +20,10 @@ class Epochs:
             src = source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\nepochs={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
                 txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+            txt += '\nepochs={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
 
         definition = next((e for e in src['epochs'] if e['name'] == identifier), None)
diff --git a/src/craterstats/Productionfn.py b/src/craterstats/Productionfn.py
index ac3b3d8..cd4038e 100644
--- a/src/craterstats/Productionfn.py
+++ b/src/craterstats/Productionfn.py
@@ -20,9 +20,10 @@ class Productionfn:
             src=source
         else:
             if '\n' in source: # multiline string is definition
-                txt = source + '\n'+pf_type+'={\n name="null"\n}' # add null entry to force implied array
+                txt = source
             else: # single line string is filename
                 txt = gm.read_textfile(source, as_string=True, ignore_hash=True)
+            txt += '\n'+pf_type+'={\n name="null"\n}' # add null entry to force implied array
             src = gm.read_textstructure(txt, from_string=True)
         
         self.definition=next((e for e in src[pf_type] if e['name']==identifier), None)
-- 
2.43.0


From 9f2c36f5b1978d801fb701f13693a4d493b6453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 69/71] fix: quoted arguments in a list of commands

---
 src/craterstats/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/cli.py b/src/craterstats/cli.py
index ee6480f..e653d38 100644
--- a/src/craterstats/cli.py
+++ b/src/craterstats/cli.py
@@ -360,7 +360,7 @@ def source_cmds(src):
     cmd=gm.read_textfile(src, ignore_blank=True, ignore_hash=True)
     parser=get_parser()
     for i,c in enumerate(cmd):
-        a = c.split()
+        a = shlex.split(c)
         args = parser.parse_args(a)
         if args.out is None:
             f=f'{i:02d}-out'
-- 
2.43.0


From dab5dcd422e916f61b5cdbecfcc588d5f316f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:53 +0000
Subject: [PATCH 70/71] fix: lines of white space are blank lines

---
 src/craterstats/gm/file/read_textfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/craterstats/gm/file/read_textfile.py b/src/craterstats/gm/file/read_textfile.py
index 758509f..4cbf8b9 100644
--- a/src/craterstats/gm/file/read_textfile.py
+++ b/src/craterstats/gm/file/read_textfile.py
@@ -26,7 +26,7 @@ def read_textfile(filename,n_lines=-1,ignore_blank=False,ignore_hash=False,strip
                 s.append('')  # preserve last empty line
 
     if ignore_blank:
-        s = [e for e in s if e != '']
+        s = [e for e in s if e.strip() != '']
 
     if ignore_hash:
         s = [e for e in s if not e.lstrip().startswith('#')]
-- 
2.43.0


From 7308db89d2508ad6f35e3357893f82fed6530e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 71/71] fix: documented isochron suffix 'n' suppresses the
 label instead of dropping the isochron

---
 src/craterstats/Craterplotset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/craterstats/Craterplotset.py b/src/craterstats/Craterplotset.py
index c846679..592d542 100644
--- a/src/craterstats/Craterplotset.py
+++ b/src/craterstats/Craterplotset.py
@@ -563,8 +563,8 @@ class Craterplotset:
         isochrons = []
         for e in self.isochrons.split(','):
             try:
-                value = abs(float(e.rstrip('ash')))
-                isochrons.append((value, 'h' in e, 'a' in e, 's' in e))
+                value = abs(float(e.rstrip('ashn')))
+                isochrons.append((value, 'h' in e or 'n' in e, 'a' in e, 's' in e))
             except ValueError:
                 continue
 
-- 
2.43.0

