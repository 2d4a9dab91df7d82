From 8fa7f3daeb7e99c655cc9ccd3da5ebbd6f13b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:08 +0000
Subject: [PATCH 01/61] fix: do not reuse Nexus results overwritten by an
 evaluation that failed part way

---
 trunk/SUAVE/Optimization/Nexus.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 11b6cf1..44d0225 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -127,6 +127,10 @@ class Nexus(Data):
         
         self.evaluation_count += 1
         
+        # the results are overwritten from here on, so they no longer belong to the last inputs
+        self.last_inputs   = None
+        self.last_fidelity = None
+        
         for key,step in nexus.procedure.items():
             if hasattr(step,'evaluate'):
                 self = step.evaluate(nexus)
-- 
2.43.0


From 789c0594518c5759daf1d7c65aa3685c1a3f2974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 02/61] fix: let interrupts and memory errors through Data
 attribute access, updates and defaults

---
 trunk/SUAVE/Core/Data.py        | 14 ++++++++------
 trunk/SUAVE/Core/DataOrdered.py |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 4b8213e..586b040 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -65,7 +65,7 @@ class Data(dict):
             """         
         try:
             return dictgetitem(self,k)
-        except:
+        except KeyError:
             return objgetattrib(self,k)
 
     def __setattr__(self, k, v):
@@ -89,7 +89,7 @@ class Data(dict):
         """
         try:
             objgetattrib(self, k)
-        except:
+        except Exception:
             self[k] = v
         else:          
             object.__setattr__(self, k, v) 
@@ -114,7 +114,7 @@ class Data(dict):
         """        
         try:
             objgetattrib(self, k)
-        except:
+        except Exception:
             del self[k]
         else:
             object.__delattr__(self, k)
@@ -170,7 +170,9 @@ class Data(dict):
         for klass in klasses[::-1]:
             try:
                 klass.__defaults__(self)
-            except:
+            except MemoryError:
+                raise
+            except Exception:
                 pass
             
         return self
@@ -442,7 +444,7 @@ class Data(dict):
         
             try:
                 self[k].update(v)
-            except:
+            except Exception:
                 self[k] = v
         return
     
@@ -477,7 +479,7 @@ class Data(dict):
             else:
                 try:
                     self[k].append_or_update(v)
-                except:
+                except Exception:
                     self[k] = copy(v)
         return          
     
diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 92705bb..a28b2af 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -252,7 +252,7 @@ class DataOrdered(OrderedDict):
         try:
             self.__getitem__(k)
             return True
-        except:
+        except Exception:
             return False
             
     
@@ -541,7 +541,7 @@ class DataOrdered(OrderedDict):
         
             try:
                 self[k].update(v)
-            except:
+            except Exception:
                 self[k] = v
         return 
 
-- 
2.43.0


From fcf22b19ee3610299134314cb486c7b3f1d8f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 03/61] fix: replace an archive file only after the new one is
 completely written

---
 trunk/SUAVE/Input_Output/SUAVE/archive.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SUAVE/archive.py b/trunk/SUAVE/Input_Output/SUAVE/archive.py
index bd4cfb3..4d81bd5 100644
--- a/trunk/SUAVE/Input_Output/SUAVE/archive.py
+++ b/trunk/SUAVE/Input_Output/SUAVE/archive.py
@@ -12,6 +12,7 @@ from SUAVE.Core import Data
 import numpy as np
 import types
 import json
+import os
 from collections import OrderedDict
 
 # ----------------------------------------------------------------------
@@ -45,10 +46,17 @@ def archive(data,filename):
     # Convert the dictionary to a JSON string
     res_string = json.dumps(res_dict)
     
-    # Write results to a file
-    f = open(filename,'w')   
-    f.write(res_string)
-    f.close()  
+    # Write results to a temporary file first, so that a save that is stopped
+    # part way leaves the previous archive as it was
+    filename = os.path.realpath(filename)
+    tempname = filename + '.tmp'
+    try:
+        with open(tempname,'w') as f:
+            f.write(res_string)
+        os.replace(tempname,filename)
+    except BaseException:
+        if os.path.exists(tempname): os.remove(tempname)
+        raise
        
 ## @ingroup Input_Output-SUAVE
 def build_dict_base(base):
-- 
2.43.0


From adf1b10f8814836bf9fcc1aedce4f6d23c852658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 04/61] fix: archive numpy scalars and refuse data that cannot
 be stored instead of saving null

---
 trunk/SUAVE/Input_Output/SUAVE/archive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SUAVE/archive.py b/trunk/SUAVE/Input_Output/SUAVE/archive.py
index 4d81bd5..8c1a9b6 100644
--- a/trunk/SUAVE/Input_Output/SUAVE/archive.py
+++ b/trunk/SUAVE/Input_Output/SUAVE/archive.py
@@ -113,7 +113,7 @@ def build_dict_r(v):
     tv = type(v) # Get value type
     
     # Transform to basic python data type as appropriate
-    if (tv == np.ndarray) or (tv == np.float64):
+    if isinstance(v,(np.ndarray,np.generic)):
         ret = v.tolist()
     elif (tv == str) or (tv == bool):
         ret = v
@@ -130,8 +130,8 @@ def build_dict_r(v):
         # Assume other data types are SUAVE data types and check
         try:
             keys = v.keys()
-        except:
-            if callable(tv):
+        except AttributeError:
+            if callable(v):
                 return None
             else:
                 raise TypeError('Unexpected data type in SUAVE data structure')
-- 
2.43.0


From 143f48a6d575cc4af9d9722c1a95f5402b901999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 05/61] fix: replace an XML document only after the new one is
 completely written

---
 trunk/SUAVE/Input_Output/XML/save.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/XML/save.py b/trunk/SUAVE/Input_Output/XML/save.py
index bca29c8..6cca59f 100644
--- a/trunk/SUAVE/Input_Output/XML/save.py
+++ b/trunk/SUAVE/Input_Output/XML/save.py
@@ -14,6 +14,7 @@ from .Data import Data as XML_Data
 from SUAVE.Core import Data
 
 from warnings import warn
+import os
 
 # Try to load a suitable celementtree incarnation. This is supposed to work for
 # both Python 2.4 (both python and C version) and Python 2.5
@@ -94,11 +95,18 @@ def save(xml_data,filename):
 	# to xml tree
 	tree = et.ElementTree(xml_data)
 
-	# write!
-	output = open(filename,'wb')
-	tree.write(output, 'utf-8')
-	output.write(bytes('\n', 'utf-8'))    
-	output.close()
+	# write! to a temporary file first, so that a save that is stopped
+	# part way leaves the previous document as it was
+	filename = os.path.realpath(filename)
+	tempname = filename + '.tmp'
+	try:
+		with open(tempname,'wb') as output:
+			tree.write(output, 'utf-8')
+			output.write(bytes('\n', 'utf-8'))
+		os.replace(tempname,filename)
+	except BaseException:
+		if os.path.exists(tempname): os.remove(tempname)
+		raise
 
 	return
 
-- 
2.43.0


From 9d357320e0528e858bbc5dfceb6b4b7a0848ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 06/61] fix: close the XML file when loading it fails

---
 trunk/SUAVE/Input_Output/XML/load.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/XML/load.py b/trunk/SUAVE/Input_Output/XML/load.py
index 7b0b80b..4208e8d 100644
--- a/trunk/SUAVE/Input_Output/XML/load.py
+++ b/trunk/SUAVE/Input_Output/XML/load.py
@@ -41,17 +41,19 @@ def load(file_in):
     # open file, read conents
     if isinstance(file_in,str):
         file_in = open(file_in)
-    src = file_in.read()
-    
-    # build xml tree
-    builder = TreeBuilder()
-    if isinstance(src,str):
-        xml.sax.parseString(src, builder)
-    else:
-        xml.sax.parse(src, builder)
+    try:
+        src = file_in.read()
+        
+        # build xml tree
+        builder = TreeBuilder()
+        if isinstance(src,str):
+            xml.sax.parseString(src, builder)
+        else:
+            xml.sax.parse(src, builder)
     
     # close file
-    file_in.close()
+    finally:
+        file_in.close()
 
     # pull xml data
     xml_data = builder.root.elements[0]
-- 
2.43.0


From ea7c14e672ff47031fb22f3aa3f40cb05da6cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 07/61] fix: scale logged design variables by their scale and
 not by their upper bound

---
 trunk/SUAVE/Optimization/write_optimization_outputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/write_optimization_outputs.py b/trunk/SUAVE/Optimization/write_optimization_outputs.py
index e14b8a9..a81a229 100644
--- a/trunk/SUAVE/Optimization/write_optimization_outputs.py
+++ b/trunk/SUAVE/Optimization/write_optimization_outputs.py
@@ -44,7 +44,7 @@ def write_optimization_outputs(nexus, filename):
     
     #inputs
     unscaled_inputs    = nexus.optimization_problem.inputs[:,1] #use optimization problem inputs here
-    input_scaling      = nexus.optimization_problem.inputs[:,3]
+    input_scaling      = nexus.optimization_problem.inputs[:,-2]
     scaled_inputs      = unscaled_inputs/input_scaling
     
     #objective
-- 
2.43.0


From f64eed456de561c5bf0a99092fb48ac94787c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:10 +0000
Subject: [PATCH 08/61] fix: keep the optimization history readable when a
 record is cut short or has no constraints

---
 .../Optimization/read_optimization_outputs.py | 10 ++++---
 .../write_optimization_outputs.py             | 26 ++++++++++---------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/trunk/SUAVE/Optimization/read_optimization_outputs.py b/trunk/SUAVE/Optimization/read_optimization_outputs.py
index 3178e55..639c2ae 100644
--- a/trunk/SUAVE/Optimization/read_optimization_outputs.py
+++ b/trunk/SUAVE/Optimization/read_optimization_outputs.py
@@ -36,6 +36,10 @@ def format_input_data(data):
     data_out=[]
   
     for line in data:
+        
+        # skip records that were cut short by a crash or a full disk
+        if ', constraints = [' not in line or not line.rstrip().endswith(']'):
+            continue
        
         line = line.replace('[','')
         line = line.replace(']','')
@@ -44,13 +48,11 @@ def format_input_data(data):
         line = line.replace(' objective = ' , '')
         line = line.replace('inputs = ' , '')
         line = line.replace('constraints = ' , '')
-        numbers = line.split(' ')
+        numbers = line.split()
         
         numbers_out=[]
         for number in numbers:
-            if number != ' ' or number != '\t':
-                
-                numbers_out.append(float(number))
+            numbers_out.append(float(number))
             
         data_out.append(numbers_out)
     data_out=np.array(data_out)  #change into numpy array to work with later
diff --git a/trunk/SUAVE/Optimization/write_optimization_outputs.py b/trunk/SUAVE/Optimization/write_optimization_outputs.py
index a81a229..84bcf57 100644
--- a/trunk/SUAVE/Optimization/write_optimization_outputs.py
+++ b/trunk/SUAVE/Optimization/write_optimization_outputs.py
@@ -9,6 +9,7 @@
 #  Imports
 # ----------------------------------------------------------------------
 
+import os
 from .helper_functions import get_values, scale_obj_values, scale_const_values
 
 # ----------------------------------------------------------------------
@@ -63,18 +64,19 @@ def write_optimization_outputs(nexus, filename):
         problem_constraints.append(value)
     
     
-    file=open(filename, 'a')
-    file.write('iteration = ')
-    file.write(str(nexus.total_number_of_iterations))
-    file.write(' , ')
-    file.write('objective = ')
-    file.write(str(scaled_objective[0]))
-    file.write(', inputs = ')
-    file.write(str(problem_inputs))
-    file.write(', constraints = ')
-    file.write(str(problem_constraints))
+    record  = 'iteration = ' + str(nexus.total_number_of_iterations) + ' , '
+    record += 'objective = ' + str(scaled_objective[0])
+    record += ', inputs = ' + str(problem_inputs)
+    record += ', constraints = ' + str(problem_constraints) + '\n'
     
-    file.write('\n') 
-    file.close()
+    # a record that was cut short by a crash must not swallow this one
+    if os.path.exists(filename) and os.path.getsize(filename)>0:
+        with open(filename, 'rb') as file:
+            file.seek(-1, os.SEEK_END)
+            if file.read(1) != b'\n':
+                record = '\n' + record
+    
+    with open(filename, 'a') as file:
+        file.write(record)
     
     return
\ No newline at end of file
-- 
2.43.0


From 8279e7b40d63150979f9a281728458029b00f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 09/61] fix: hand redirected streams back and close the log
 files when a flush or open fails

---
 trunk/SUAVE/Core/redirect.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Core/redirect.py b/trunk/SUAVE/Core/redirect.py
index 1e751d4..91d64ee 100644
--- a/trunk/SUAVE/Core/redirect.py
+++ b/trunk/SUAVE/Core/redirect.py
@@ -61,7 +61,11 @@ class output(object):
             stdout = open(stdout,'a')
             _newout = True            
         if isinstance(stderr,str):
-            stderr = open(stderr,'a')
+            try:
+                stderr = open(stderr,'a')
+            except BaseException:
+                if _newout: stdout.close()
+                raise
             _newerr = True                   
                 
         self._stdout = stdout or sys.stdout
@@ -71,18 +75,32 @@ class output(object):
 
     def __enter__(self):
         self.old_stdout, self.old_stderr = sys.stdout, sys.stderr
-        self.old_stdout.flush(); self.old_stderr.flush()
+        try:
+            self.old_stdout.flush(); self.old_stderr.flush()
+        except BaseException:
+            self._close()
+            raise
         sys.stdout, sys.stderr = self._stdout, self._stderr
 
     def __exit__(self, exc_type, exc_value, traceback):
-        self._stdout.flush(); self._stderr.flush()
+        # hand the streams back first, flushing and closing may fail
         sys.stdout = self.old_stdout
         sys.stderr = self.old_stderr
-        
-        if self._newout:
-            self._stdout.close()
-        if self._newerr:
-            self._stderr.close()           
+        try:
+            self._stdout.flush()
+        finally:
+            try:
+                self._stderr.flush()
+            finally:
+                self._close()
+        
+    def _close(self):
+        try:
+            if self._newout:
+                self._stdout.close()
+        finally:
+            if self._newerr:
+                self._stderr.close()           
 
 
 # -------------------------------------------------------------------
-- 
2.43.0


From a70bae4ee798f7cfd9f68dbeb1e3a0869c2ebf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 10/61] fix: return to the original folder when a redirected
 folder's files cannot be pushed

---
 trunk/SUAVE/Core/redirect.py | 48 +++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/trunk/SUAVE/Core/redirect.py b/trunk/SUAVE/Core/redirect.py
index 91d64ee..01f8155 100644
--- a/trunk/SUAVE/Core/redirect.py
+++ b/trunk/SUAVE/Core/redirect.py
@@ -225,32 +225,34 @@ class folder(object):
         if folder == origin:
             return
         
-        # move assets
-        for name in push:
-            
-            old_name = os.path.abspath(name)
-            name = os.path.split(name)[-1]
-            new_name = os.path.join(origin,name)
+        try:
+            # move assets
+            for name in push:
             
-            # links
-            if os.path.islink(old_name):
-                source = os.path.realpath(old_name)
-                if source == new_name: continue
-                if os.path.exists( new_name ):
-                    if force: os.remove( new_name )
-                    else: continue
-                make_link(source,new_name)
+                old_name = os.path.abspath(name)
+                name = os.path.split(name)[-1]
+                new_name = os.path.join(origin,name)
             
-            # moves
-            else:
-                if old_name == new_name: continue
-                if os.path.exists( new_name ):
-                    if force: os.remove( new_name )
-                    else: continue
-                shutil.move(old_name,new_name)
+                # links
+                if os.path.islink(old_name):
+                    source = os.path.realpath(old_name)
+                    if source == new_name: continue
+                    if os.path.exists( new_name ):
+                        if force: os.remove( new_name )
+                        else: continue
+                    make_link(source,new_name)
             
-        # change directory
-        os.chdir(origin)
+                # moves
+                else:
+                    if old_name == new_name: continue
+                    if os.path.exists( new_name ):
+                        if force: os.remove( new_name )
+                        else: continue
+                    shutil.move(old_name,new_name)
+
+        # change directory, also when a file could not be moved
+        finally:
+            os.chdir(origin)
         
   
 def make_link(src,dst):
-- 
2.43.0


From 33604321c81777de97e3ad217e2b7b3e9a963001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 11/61] fix: do not delete a file in a redirected folder when
 its replacement is missing

---
 trunk/SUAVE/Core/redirect.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/trunk/SUAVE/Core/redirect.py b/trunk/SUAVE/Core/redirect.py
index 01f8155..5439c5f 100644
--- a/trunk/SUAVE/Core/redirect.py
+++ b/trunk/SUAVE/Core/redirect.py
@@ -193,8 +193,9 @@ class folder(object):
             new_name = os.path.join(folder,new_name)
             if old_name == new_name: continue
             if os.path.exists( new_name ): 
-                if force: os.remove( new_name )
-                else: continue
+                if not force: continue
+                # keep the file when there is nothing to replace it with
+                if os.path.exists( old_name ): os.remove( new_name )
             shutil.copy(old_name,new_name)
 
         # make links
@@ -204,8 +205,8 @@ class folder(object):
             new_name = os.path.join(folder,new_name)
             if old_name == new_name: continue
             if os.path.exists( new_name ): 
-                if force: os.remove( new_name )
-                else: continue
+                if not force: continue
+                if os.path.exists( old_name ): os.remove( new_name )
             make_link(old_name,new_name)
             
         # change directory
@@ -238,16 +239,16 @@ class folder(object):
                     source = os.path.realpath(old_name)
                     if source == new_name: continue
                     if os.path.exists( new_name ):
-                        if force: os.remove( new_name )
-                        else: continue
+                        if not force: continue
+                        if os.path.exists( source ): os.remove( new_name )
                     make_link(source,new_name)
             
                 # moves
                 else:
                     if old_name == new_name: continue
                     if os.path.exists( new_name ):
-                        if force: os.remove( new_name )
-                        else: continue
+                        if not force: continue
+                        if os.path.exists( old_name ): os.remove( new_name )
                     shutil.move(old_name,new_name)
 
         # change directory, also when a file could not be moved
-- 
2.43.0


From 06e8d73de5bc79d13b1f6e21667a26172b1205ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 12/61] fix: let feasible designs replace infeasible or failed
 initial particles in the particle swarm

---
 .../Package_Setups/particle_swarm_optimization.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
index 71d8dd7..22d0e10 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/particle_swarm_optimization.py
@@ -135,9 +135,14 @@ def particle_swarm_optimization(func, lb, ub, ieqcons=[], f_ieqcons=None, args=(
         if i==0:
             g = p[0, :].copy()
 
+        # A failed (NaN) or infeasible starting position is not a best position,
+        # later feasible positions must be able to replace it
+        if np.isnan(fp[i]) or not is_feasible(p[i, :]):
+            fp[i] = np.inf
+
         # If the current particle's position is better than the swarm's,
         # update the best swarm position
-        if fp[i]<fg and is_feasible(p[i, :]):
+        if fp[i]<fg:
             fg = fp[i]
             g = p[i, :].copy()
        
-- 
2.43.0


From f8aa40d527686ad79091eb5ac276ab96d4b36b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:23 +0000
Subject: [PATCH 13/61] fix: give every differential evolution constraint its
 own value and keep equality constraints

---
 trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
index 6801f1a..9c91854 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
@@ -82,7 +82,7 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
         aliases            = problem.optimization_problem.aliases
         for ii in range(0,len(con)):
             de_constraint  = con[[ii]] 
-            def fun(x):
+            def fun(x,de_constraint=de_constraint):
                 problem.evaluate(x)
                 constraint_val = help_fun.get_values(problem,de_constraint,aliases)
                 return np.atleast_1d(constraint_val)
@@ -93,7 +93,9 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
                       'the general inequality form. Consider rewriting equality constraint as two '
                       'separate inequality constraints')
             
-            if con[ii][1]=='>':
+                nlc = NonlinearConstraint(fun,bound[ii],bound[ii])
+            
+            elif con[ii][1]=='>':
                 nlc = NonlinearConstraint(fun,bound[ii], np.inf) 
                 
             elif con[ii][1]=='<':
-- 
2.43.0


From fb353f6f85d0cb8283744848d94880927ef17f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 14/61] fix: compare scaled constraint values with scaled
 constraint bounds in Nexus

---
 trunk/SUAVE/Optimization/Nexus.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Nexus.py b/trunk/SUAVE/Optimization/Nexus.py
index 44d0225..71fc153 100644
--- a/trunk/SUAVE/Optimization/Nexus.py
+++ b/trunk/SUAVE/Optimization/Nexus.py
@@ -212,7 +212,7 @@ class Nexus(Data):
             constraint_values = help_fun.get_values(self,iqconstraints,aliases)          
             
             # scale bounds 
-            scaled_bnd_constraints  = help_fun.scale_const_bnds(iqconstraints)
+            scaled_bnd_constraints  = help_fun.scale_const_values(iqconstraints,help_fun.scale_const_bnds(iqconstraints))
             
             # scale constaits 
             scaled_constraints = help_fun.scale_const_values(iqconstraints,constraint_values)
@@ -262,7 +262,8 @@ class Nexus(Data):
             scaled_constraints = []
         else:
             constraint_values  = help_fun.get_values(self,eqconstraints,aliases)
-            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - help_fun.scale_const_bnds(eqconstraints)
+            scaled_bnd_constraints = help_fun.scale_const_values(eqconstraints,help_fun.scale_const_bnds(eqconstraints))
+            scaled_constraints = help_fun.scale_const_values(eqconstraints,constraint_values) - scaled_bnd_constraints
 
         return scaled_constraints   
         
-- 
2.43.0


From e9166c37e26a7a2483bfea525358d38160138b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 15/61] fix: pass bounds and constraints to the other SciPy
 minimizers

---
 trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
index 9c91854..4376340 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/scipy_setup.py
@@ -114,7 +114,14 @@ def SciPy_Solve(problem,solver='SLSQP', sense_step = 1.4901161193847656e-08, ite
         outputs = particle_swarm_optimization(wrapper, lb, ub, f_ieqcons=problem.inequality_constraint, kwargs={}, swarmsize=pop_size ,\
                                               omega=0.5, phip=0.5, phig=0.5, maxiter=1000, minstep=1e-4, minfunc=1e-4, debug=False)    
     else:
-        outputs = sp.optimize.minimize(wrapper,x,method=solver)
+        # Pass on the bounds and the constraints, SciPy warns if the method cannot use them
+        min_cons = []
+        if np.any(con[:,1]=='='):
+            min_cons.append({'type':'eq','fun':lambda x:np.array(problem.equality_constraint(x),dtype=float)})
+        if np.any(con[:,1]!='='):
+            min_cons.append({'type':'ineq','fun':lambda x:np.array(problem.inequality_constraint(x),dtype=float)})
+            
+        outputs = sp.optimize.minimize(wrapper,x,method=solver,bounds=bnds,constraints=min_cons)
     
     return outputs
 
-- 
2.43.0


From c4f08062c211b5778734f15c8bf7ce5d5913e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 16/61] fix: hand the console back and close the history
 however a multi-fidelity optimization ends

---
 .../TRMM/Trust_Region_Optimization.py         | 47 ++++++++++++-------
 .../Package_Setups/additive_setup.py          | 41 ++++++++++++----
 2 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 5593ee5..06a6247 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -18,7 +18,7 @@ except:
 from SUAVE.Core import Data
 from SUAVE.Optimization import helper_functions as help_fun
 import os
-import sys
+import contextlib
 from scipy.optimize import minimize
 
 # ----------------------------------------------------------------------
@@ -113,12 +113,35 @@ class Trust_Region_Optimization(Data):
           update_tr_size(..)
           convergance_tolerance               [-]
         """          
-        if print_output == False:
-            devnull = open(os.devnull,'w')
-            sys.stdout = devnull
-            
+        # The console is handed back and the history closed however the optimization ends
+        with contextlib.ExitStack() as stack:
+            if print_output == False:
+                devnull = stack.enter_context(open(os.devnull,'w'))
+                stack.enter_context(contextlib.redirect_stdout(devnull))
+            f_out = stack.enter_context(open('TRM_hist.txt','w'))
+            return self.run_optimization(problem,f_out)
+        
+    def run_optimization(self,problem,f_out):
+        """Runs the trust region iterations, see optimize()
+        
+        Assumptions:
+        None
+
+        Source:
+        N/A
+
+        Inputs:
+        problem              <Nexus class>
+        f_out                open history file
+
+        Outputs:
+        (fOpt_corr,xOpt_corr,str)
+
+        Properties Used:
+        see optimize()
+        """          
+        
         # History writing
-        f_out = open('TRM_hist.txt','w')
         import datetime
         f_out.write(str(datetime.datetime.now())+'\n')       
         
@@ -343,9 +366,6 @@ class Trust_Region_Optimization(Data):
             if( tr.size < tr.minimum_size ):
                 print('Trust region too small')
                 f_out.write('Trust region too small')
-                f_out.close()
-                if print_output == False:
-                    sys.stdout = sys.__stdout__                  
                 return (fOpt_corr,xOpt_corr,'Trust region too small')
             
             # Terminate if solution is infeasible, no change is detected, and trust region does not expand
@@ -353,9 +373,6 @@ class Trust_Region_Optimization(Data):
                 np.sum(np.isclose(xOpt_corr,x,rtol=1e-15,atol=1e-14)) == len(x) ):
                 print('Solution infeasible, no improvement can be made')
                 f_out.write('Solution infeasible, no improvement can be made')
-                f_out.close()
-                if print_output == False:
-                    sys.stdout = sys.__stdout__                  
                 return (fOpt_corr,xOpt_corr,'Solution infeasible')      
             
             # History writing
@@ -367,9 +384,6 @@ class Trust_Region_Optimization(Data):
             if (accepted==1 and (np.abs(f_center-fOpt_hi) < self.convergence_tolerance)):
                 print('Hard convergence reached')
                 f_out.write('Hard convergence reached')
-                f_out.close()
-                if print_output == False:
-                    sys.stdout = sys.__stdout__                  
                 return (fOpt_corr,xOpt_corr,'convergence reached')            
             
             # Update trust region center
@@ -382,10 +396,7 @@ class Trust_Region_Optimization(Data):
             print('Objective value: ' + str(fOpt_hi))
         
         f_out.write('Max iteration limit reached')
-        f_out.close()
         print('Max iteration limit reached')
-        if print_output == False:
-            sys.stdout = sys.__stdout__          
         return (fOpt_corr,xOpt_corr,'Max iteration limit reached')
             
         
diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index eebe2af..9da54aa 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -24,7 +24,7 @@ from SUAVE.Optimization import helper_functions as help_fun
 from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling
 from scipy.stats import norm
 import os
-import sys
+import contextlib
 from scipy.optimize import minimize
 from scipy.optimize import shgo
 
@@ -68,15 +68,41 @@ class Additive_Solver():
         N/A
         """        
         
-        if print_output == False:
-            devnull = open(os.devnull,'w')
-            sys.stdout = devnull    
-        
         if num_fidelity_levels != 2:
             raise NotImplementedError('Additive corrections are only implemented for 2 fidelity levels.')
         
+        # The console is handed back and the history closed however the optimization ends
+        with contextlib.ExitStack() as stack:
+            if print_output == False:
+                devnull = stack.enter_context(open(os.devnull,'w'))
+                stack.enter_context(contextlib.redirect_stdout(devnull))
+            f_out = stack.enter_context(open('add_hist.txt','w'))
+            return self.run_optimization(problem,f_out,num_fidelity_levels,num_samples,max_iterations,
+                                         tolerance,opt_type,num_starts)
+        
+    ## @ingroup Optimization-Package_Setups
+    def run_optimization(self,problem,f_out,num_fidelity_levels,num_samples,max_iterations,
+                         tolerance,opt_type,num_starts):
+        """Runs the additive correction iterations, see Additive_Solve()
+
+        Assumptions:
+        N/A
+
+        Source:
+        N/A
+
+        Inputs:
+        f_out               open history file
+        (others as in Additive_Solve())
+
+        Outputs:
+        (fOpt,xOpt)  [tuple]
+
+        Properties Used:
+        N/A
+        """        
+        
         # History writing
-        f_out = open('add_hist.txt','w')
         import datetime
         f_out.write(str(datetime.datetime.now())+'\n')
         
@@ -311,10 +337,7 @@ class Additive_Solver():
         # Save sample data
         np.save('x_samples.npy',x_samples)
         np.save('f_data.npy',f)
-        f_out.close()
         print(fOpt,xOpt)
-        if print_output == False:
-            sys.stdout = sys.__stdout__
         
         # Format objective function to array, ensure output consistency
         if np.isscalar(fOpt):
-- 
2.43.0


From 470028f9fe1f860f16b0b649a24af2655cd69086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 17/61] fix: keep the multi-fidelity optimizers inside the
 design bounds

---
 .../Package_Setups/TRMM/Trust_Region_Optimization.py        | 2 +-
 trunk/SUAVE/Optimization/Package_Setups/additive_setup.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
index 06a6247..1a08e17 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/TRMM/Trust_Region_Optimization.py
@@ -310,7 +310,7 @@ class Trust_Region_Optimization(Data):
                         gOpt_corr[ii] = new_outputs[1][ii]
                 elif self.optimizer == 'SLSQP':
                     bounds = []
-                    for lb, ub in zip(con_low_edge, con_up_edge):
+                    for lb, ub in zip(tr.lower_bound, tr.upper_bound):
                         bounds.append((lb,ub)) 
                         
                     res = minimize(self.evaluate_constraints, x, \
diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index 9da54aa..50eee4d 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -171,7 +171,7 @@ class Additive_Solver():
                 
                     x0,constraints = self.initialize_opt_vals_SLSQP(obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
     
-                    res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                    res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),bounds=list(zip(x_low_bound,x_up_bound)),options={'ftol':1e-6,'disp':True})
                     fOpt = res['fun']
                     xOpt = res['x']
                     
@@ -268,7 +268,7 @@ class Additive_Solver():
                         problem.fidelity_level = 1
                         x0,constraints = self.initialize_opt_vals_SLSQP(obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
                         
-                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),bounds=list(zip(x_low_bound,x_up_bound)),options={'ftol':1e-6,'disp':True})
                         fOpt = res['fun']
                         xOpt = res['x'] 
                     
@@ -313,7 +313,7 @@ class Additive_Solver():
                     
                         x0,constraints = self.initialize_opt_vals_SLSQP(opt_prob,obj,inp,x_low_bound,x_up_bound,con_low_edge,con_up_edge,nam,con,x_eval,problem,g_additive_surrogate)
                         
-                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),options={'ftol':1e-6,'disp':True})
+                        res = minimize(self.evaluate_corrected_model, x0,constraints=constraints,args=(problem,f_additive_surrogate,g_additive_surrogate),bounds=list(zip(x_low_bound,x_up_bound)),options={'ftol':1e-6,'disp':True})
                         fOpt = res['fun']
                         xOpt = res['x']
                         
-- 
2.43.0


From 70c480ca5412628313d2a8b634ba620700c41318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 18/61] fix: optimize additive corrections of problems with a
 single constraint

---
 trunk/SUAVE/Optimization/Package_Setups/additive_setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index 50eee4d..5a1fb58 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -408,7 +408,7 @@ class Additive_Solver():
         fail  = np.array(np.isnan(obj.tolist()) or np.isnan(np.array(const).any())).astype(int)
         
         obj_addition  = obj_surrogate.predict(np.atleast_2d(x))
-        cons_addition = cons_surrogate.predict(np.atleast_2d(x))
+        cons_addition = cons_surrogate.predict(np.atleast_2d(x)).reshape(1,-1) # one constraint may come back as a vector
         
         obj   = obj + obj_addition
         const = const + cons_addition
@@ -707,7 +707,7 @@ class Additive_Solver():
         
         const = problem.all_constraints(x).tolist()
         
-        cons_addition = cons_surrogate.predict(np.atleast_2d(x))
+        cons_addition = cons_surrogate.predict(np.atleast_2d(x)).reshape(1,-1) # one constraint may come back as a vector
         
         const = const + cons_addition
         const_list = const.tolist()[0]        
-- 
2.43.0


From 1ab19bbbec2d067e920be09a3c03a83318ac16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 19/61] fix: finish an additive optimization when the global
 search finds no feasible point

---
 trunk/SUAVE/Optimization/Package_Setups/additive_setup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
index 5a1fb58..37ae98e 100644
--- a/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
+++ b/trunk/SUAVE/Optimization/Package_Setups/additive_setup.py
@@ -221,7 +221,7 @@ class Additive_Solver():
             # ---------------------------------
             
             complete_flag = False
-            if np.any(np.isnan(xOpt)):
+            if xOpt is None or np.any(np.isnan(xOpt)): # SHGO gives no point if it finds no feasible one
                 complete_flag = True
             else:
             
-- 
2.43.0


From e97568cfe208b81ebf6adb6935ac6e6ce375c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 20/61] fix: raise when AVL fails and always hand the console
 back

---
 .../Methods/Aerodynamics/AVL/run_analysis.py  | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/run_analysis.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/run_analysis.py
index 43733fc..cfc8d3d 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/run_analysis.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/run_analysis.py
@@ -64,9 +64,9 @@ def call_avl(avl_object,print_output):
         log_file = avl_object.settings.filenames.log_filename
         err_file = avl_object.settings.filenames.err_filename
         if isinstance(log_file,str):
-            purge_files(log_file)
+            purge_files([log_file])
         if isinstance(err_file,str):
-            purge_files(err_file)
+            purge_files([err_file])
         avl_call = avl_object.settings.filenames.avl_bin_name
         geometry = avl_object.settings.filenames.features
         in_deck  = avl_object.current_status.deck_file  
@@ -75,27 +75,25 @@ def call_avl(avl_object,print_output):
     
             ctime = time.ctime() # Current date and time stamp
     
-            with open(in_deck,'r') as commands: 
+            with open(in_deck,'r') as commands, open(os.devnull,'w') as devnull: 
                 
-                # Initialize suppression of console window output
+                # Suppress console window output if it is not wanted
                 if print_output == False:
-                    devnull = open(os.devnull,'w')
-                    sys.stdout = devnull       
+                    console = devnull
+                else:
+                    console = sys.stdout
                     
-                # Run AVL
-                avl_run = subprocess.Popen([avl_call,geometry],stdout=sys.stdout,stderr=sys.stderr,stdin=subprocess.PIPE)
-                for line in commands:
-                    avl_run.stdin.write(line.encode('utf-8'))
-                    avl_run.stdin.flush()
-                  
-                # Terminate suppression of console window output  
-                if print_output == False:
-                    sys.stdout = sys.__stdout__                    
-                    
-            avl_run.wait()
+                # Run AVL, the child process is always waited for
+                with subprocess.Popen([avl_call,geometry],stdout=console,stderr=sys.stderr,stdin=subprocess.PIPE) as avl_run:
+                    for line in commands:
+                        avl_run.stdin.write(line.encode('utf-8'))
+                        avl_run.stdin.flush()
     
             exit_status = avl_run.returncode
             ctime = time.ctime()
+            
+        if exit_status != 0:
+            raise RuntimeError('AVL ended with exit status {} running {}'.format(exit_status,in_deck))
 
     return exit_status
 
-- 
2.43.0


From c242e67356835a0e76bbce458749a467218ef6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:12 +0000
Subject: [PATCH 21/61] fix: remove the AVL results of earlier runs before
 every run

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/purge_files.py      | 2 +-
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/purge_files.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/purge_files.py
index eba1daa..f5d4070 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/purge_files.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/purge_files.py
@@ -32,6 +32,6 @@ def purge_files(filenames_array,directory=''):
 	for f in filenames_array:
 		try:
 			os.remove(os.path.abspath(os.path.join(directory,f)))
-		except OSError:
+		except FileNotFoundError:
 			pass
 			#print 'File {} was not found. Skipping purge.'.format(f)
\ No newline at end of file
diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
index a0e8e89..61baff8 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
@@ -126,11 +126,12 @@ x
     aero_file_3    = case.aero_result_filename_3 
     aero_file_4    = case.aero_result_filename_4
     
-    # purge files 
-    if not avl_object.settings.keep_files:
+    # purge results of earlier runs, only a regression reads files that are already there
+    if not avl_object.settings.regression_flag:
         purge_files([aero_file_1])
         purge_files([aero_file_2])
-        purge_files([aero_file_3])      
+        purge_files([aero_file_3])
+        purge_files([aero_file_4])
     
     # write input deck for avl executable 
     case_command = base_case_command.format(index,trim_command,roll_rate_command,pitch_rate_command ,beta_command,aero_command_1 , aero_file_1 ,aero_command_2  \
-- 
2.43.0


From 044c6086b363297955d7f4aa31a30823de0a2691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 22/61] fix: refuse AVL result files that are cut short

---
 .../Methods/Aerodynamics/AVL/read_results.py  | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index ca8671c..d24d662 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -51,7 +51,7 @@ def read_results(avl_object):
             case_res.stability.beta_derivatives                             = Data()   
                                                                             
             case_res.tag                                                    = case.tag 
-            lines                                                           = stab_der_vile.readlines()
+            lines                                                           = read_complete_lines(stab_der_vile)
             case_res.S_ref                                                  = float(lines[8][10:16].strip())
             case_res.c_ref                                                  = float(lines[8][31:37].strip())
             case_res.b_ref                                                  = float(lines[8][52:58].strip())
@@ -142,7 +142,7 @@ def read_results(avl_object):
         
         # Extract resulst from surface forces result file
         with open(case.aero_result_filename_2,'r') as aero_res_file:
-            aero_lines   = aero_res_file.readlines()
+            aero_lines   = read_complete_lines(aero_res_file)
             line_idx     = 0
             header       = 12 + n_wings + n_fus_sec           
             for i in range(n_wings):
@@ -156,7 +156,7 @@ def read_results(avl_object):
             
         # Extract resulst from  strip forces result file
         with open(case.aero_result_filename_3,'r') as aero_res_file_2:
-            aero_lines_2     = aero_res_file_2.readlines()
+            aero_lines_2     = read_complete_lines(aero_res_file_2)
             line_idx         = 0
             header           = 20
             divider_header   = 15    
@@ -170,7 +170,7 @@ def read_results(avl_object):
                     try:
                         alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][43:51].strip())
                         wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][70:78].strip())
-                    except:
+                    except ValueError:
                         alpha_i[i,j]              = 0.
                         wing_cd[i,j]              = 0.
                 line_idx = divider_header +  n_sw + line_idx            
@@ -183,7 +183,7 @@ def read_results(avl_object):
         with open(case.aero_result_filename_4,'r') as bod_der_vile:
             # Extract results from body axis derivatives file                         
                                                                            
-            lines_2                  = bod_der_vile.readlines() 
+            lines_2                  = read_complete_lines(bod_der_vile) 
             case_res.stability.CX_u  = float(lines_2[36+num_ctrl][24:34].strip())
             case_res.stability.CX_v  = float(lines_2[36+num_ctrl][43:54].strip())
             case_res.stability.CX_w  = float(lines_2[36+num_ctrl][65:74].strip())
@@ -226,3 +226,27 @@ def read_results(avl_object):
         results.append(case_res)
             
     return results
+
+## @ingroup Methods-Aerodynamics-AVL
+def read_complete_lines(result_file):
+    """ Reads the lines of an AVL result file and checks that its last line was completely written
+
+    Assumptions:
+        AVL ends every line with a line break
+        
+    Source:
+        None
+
+    Inputs:
+        result_file - open file 
+
+    Outputs:
+        lines     
+
+    Properties Used:
+        N/A
+    """    
+    lines = result_file.readlines()
+    if not lines or not lines[-1].endswith('\n'):
+        raise IOError('AVL result file {} is incomplete'.format(result_file.name))
+    return lines
-- 
2.43.0


From 0fa15563b51c801534bb24b3550a38f5cc4433c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 23/61] fix: write the AVL side slip angle in degrees

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
index 7ead4f3..13d330c 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_run_cases.py
@@ -11,6 +11,7 @@
 # ----------------------------------------------------------------------
 #  Imports
 # ----------------------------------------------------------------------
+from SUAVE.Core                                       import Units
 from SUAVE.Methods.Aerodynamics.AVL.purge_files       import purge_files
 from SUAVE.Components.Wings.Control_Surfaces import Aileron , Elevator , Slat , Flap , Rudder 
 
@@ -109,7 +110,7 @@ def write_run_cases(avl_object,trim_aircraft):
             CL    = case.conditions.aerodynamics.lift_coefficient
             CDp   = 0.
             AoA   = round(case.conditions.aerodynamics.angle_of_attack,4)
-            beta  = round(case.conditions.aerodynamics.side_slip_angle,4)
+            beta  = round(case.conditions.aerodynamics.side_slip_angle/Units.degrees,4)
             pb_2V = round(case.conditions.aerodynamics.roll_rate_coefficient,4)
             qc_2V = round(case.conditions.aerodynamics.pitch_rate_coefficient,4)
             mach  = round(case.conditions.freestream.mach,4)
-- 
2.43.0


From ee228385acf57e6393ae50dd8f214b8cdedc8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 24/61] fix: twist of AVL sections at control surface breaks

---
 .../SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
index fcc7055..0feafd9 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/create_avl_datastructure.py
@@ -311,7 +311,7 @@ def append_avl_wing_control_surfaces(suave_wing,avl_wing,semispan,root_chord_per
         semispan_section_fraction = (ordered_section_spans[section_count] - semispan*root_percent_span)/(semispan*(tip_percent_span - root_percent_span ))   
         section.chord             = np.interp(semispan_section_fraction,[0.,1.],[root_section_chord,tip_section_chord])
         root_section_twist        = root_twist/Units.degrees 
-        tip_section_twist         = root_chord*tip_twist/Units.degrees  
+        tip_section_twist         = tip_twist/Units.degrees  
         section.twist             = np.interp(semispan_section_fraction,[0.,1.],[root_section_twist,tip_section_twist]) 
 
         # if wing is a vertical wing, the y and z coordinates are swapped 
-- 
2.43.0


From 0fb540f455e27f5c8233f0b474a4f274e484b209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 25/61] fix: give every control surface its own deflection in
 AVL

---
 .../Methods/Aerodynamics/AVL/write_input_deck.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
index 61baff8..38522d2 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/write_input_deck.py
@@ -279,11 +279,18 @@ def control_surface_deflection_command(case,aircraft):
 D{0}
 D{1}
 {2}'''
-    cs_idx = 1 
+    # AVL numbers the control surfaces in the order in which they first appear in the geometry file
+    with open(aircraft.settings.filenames.features,'r') as geometry:
+        lines = geometry.readlines()
+    cs_names = []
+    for line, next_line in zip(lines[:-1],lines[1:]):
+        if line.strip() == 'CONTROL' and next_line.split()[0] not in cs_names:
+            cs_names.append(next_line.split()[0])
+    
     cs_commands = ''
     for wing in aircraft.geometry.wings:
         for ctrl_surf in wing.control_surfaces:
-            cs_command = cs_template.format(cs_idx,cs_idx,round(ctrl_surf.deflection/Units.degrees,4))
+            cs_idx      = cs_names.index(ctrl_surf.tag) + 1
+            cs_command  = cs_template.format(cs_idx,cs_idx,round(ctrl_surf.deflection/Units.degrees,4))
             cs_commands = cs_commands + cs_command
-            cs_idx += 1
     return cs_commands 
\ No newline at end of file
-- 
2.43.0


From 469089c3b61a72c19d30df396e28efb240c67c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 26/61] fix: save the neutral point with the AVL stability
 training data

---
 trunk/SUAVE/Analyses/Stability/AVL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index a188652..7dba92c 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -314,7 +314,7 @@ class AVL(Stability):
             CM_1D       = CM.reshape([len(AoA)*len(Mach),1]) 
             Cm_alpha_1D = Cm_alpha.reshape([len(AoA)*len(Mach),1])  
             Cn_beta_1D  = Cn_beta.reshape([len(AoA)*len(Mach),1])         
-            NP_1D       = Cn_beta.reshape([len(AoA)*len(Mach),1]) 
+            NP_1D       = NP.reshape([len(AoA)*len(Mach),1]) 
             np.savetxt(geometry.tag+'_stability_data.txt',np.hstack([CM_1D,Cm_alpha_1D, Cn_beta_1D,NP_1D ]),fmt='%10.8f',header='   CM       Cm_alpha       Cn_beta       NP ')
         
         # Store training data
-- 
2.43.0


From 18f8252e704c6ac511a3b44afe129319b447a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:15 +0000
Subject: [PATCH 27/61] fix: never build a model from incomplete AVL training
 data

---
 trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py | 9 +++++++--
 trunk/SUAVE/Analyses/Stability/AVL.py             | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
index d2e795e..aaac142 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
@@ -291,7 +291,9 @@ class AVL_Inviscid(Aerodynamics):
         
         if self.training_file:
             # load data 
-            data_array    = np.loadtxt(self.training_file)  
+            data_array    = np.loadtxt(self.training_file,ndmin=2)  
+            if len(data_array) != len_AoA*len_Mach:
+                raise ValueError('{} does not hold one row for every training point'.format(self.training_file))
             CL_1D         = np.atleast_2d(data_array[:,0]) 
             CD_1D         = np.atleast_2d(data_array[:,1])            
             e_1D          = np.atleast_2d(data_array[:,2])
@@ -307,7 +309,10 @@ class AVL_Inviscid(Aerodynamics):
             CL_1D = CL.reshape([len_AoA*len_Mach,1]) 
             CD_1D = CD.reshape([len_AoA*len_Mach,1])  
             e_1D  = e.reshape([len_AoA*len_Mach,1]) 
-            np.savetxt(geometry.tag+'_aero_data.txt',np.hstack([CL_1D,CD_1D,e_1D]),fmt='%10.8f',header='  CL      CD      e  ')
+            # the file gets its name when it is complete
+            file_name = geometry.tag+'_aero_data.txt'
+            np.savetxt(file_name+'.tmp',np.hstack([CL_1D,CD_1D,e_1D]),fmt='%10.8f',header='  CL      CD      e  ')
+            os.replace(file_name+'.tmp',file_name)
           
         # Save the data for regression
         training_data = np.zeros((3,len_AoA,len_Mach))
diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index 7dba92c..5435fd2 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -296,7 +296,9 @@ class AVL(Stability):
         
         if self.training_file:
             # load data 
-            data_array   = np.loadtxt(self.training_file)  
+            data_array   = np.loadtxt(self.training_file,ndmin=2)  
+            if len(data_array) != len(AoA)*len(Mach):
+                raise ValueError('{} does not hold one row for every training point'.format(self.training_file))
             CM_1D        = np.atleast_2d(data_array[:,0]) 
             Cm_alpha_1D  = np.atleast_2d(data_array[:,1])            
             Cn_beta_1D   = np.atleast_2d(data_array[:,2])
@@ -315,7 +317,10 @@ class AVL(Stability):
             Cm_alpha_1D = Cm_alpha.reshape([len(AoA)*len(Mach),1])  
             Cn_beta_1D  = Cn_beta.reshape([len(AoA)*len(Mach),1])         
             NP_1D       = NP.reshape([len(AoA)*len(Mach),1]) 
-            np.savetxt(geometry.tag+'_stability_data.txt',np.hstack([CM_1D,Cm_alpha_1D, Cn_beta_1D,NP_1D ]),fmt='%10.8f',header='   CM       Cm_alpha       Cn_beta       NP ')
+            # the file gets its name when it is complete
+            file_name = geometry.tag+'_stability_data.txt'
+            np.savetxt(file_name+'.tmp',np.hstack([CM_1D,Cm_alpha_1D, Cn_beta_1D,NP_1D ]),fmt='%10.8f',header='   CM       Cm_alpha       Cn_beta       NP ')
+            os.replace(file_name+'.tmp',file_name)
         
         # Store training data
         # Save the data for regression
-- 
2.43.0


From dc159f5ab65be231e4dd93f5a9fdd6b370095c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 28/61] fix: read every digit and sign of the AVL result files

---
 .../Methods/Aerodynamics/AVL/read_results.py  | 114 +++++++++---------
 1 file changed, 57 insertions(+), 57 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index d24d662..43abef7 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -52,56 +52,56 @@ def read_results(avl_object):
                                                                             
             case_res.tag                                                    = case.tag 
             lines                                                           = read_complete_lines(stab_der_vile)
-            case_res.S_ref                                                  = float(lines[8][10:16].strip())
-            case_res.c_ref                                                  = float(lines[8][31:37].strip())
-            case_res.b_ref                                                  = float(lines[8][52:58].strip())
-            case_res.X_ref                                                  = float(lines[9][10:16].strip())
-            case_res.Y_ref                                                  = float(lines[9][31:37].strip())
-            case_res.Z_ref                                                  = float(lines[9][52:58].strip())  
+            case_res.S_ref                                                  = float(lines[8][8:20].strip())
+            case_res.c_ref                                                  = float(lines[8][29:41].strip())
+            case_res.b_ref                                                  = float(lines[8][50:62].strip())
+            case_res.X_ref                                                  = float(lines[9][8:20].strip())
+            case_res.Y_ref                                                  = float(lines[9][29:41].strip())
+            case_res.Z_ref                                                  = float(lines[9][50:62].strip())  
                                                                             
             case_res.aerodynamics.AoA                                       = float(lines[15][10:19].strip())
-            case_res.aerodynamics.CX                                        = float(lines[19][11:19].strip())
-            case_res.aerodynamics.CY                                        = float(lines[20][11:19].strip()) 
-            case_res.aerodynamics.CZ                                        = float(lines[21][11:19].strip())
+            case_res.aerodynamics.CX                                        = float(lines[19][9:19].strip())
+            case_res.aerodynamics.CY                                        = float(lines[20][9:19].strip()) 
+            case_res.aerodynamics.CZ                                        = float(lines[21][9:19].strip())
                                                                             
-            case_res.aerodynamics.Cltot                                     = float(lines[19][33:41].strip())
-            case_res.aerodynamics.Cmtot                                     = float(lines[20][33:41].strip()) 
-            case_res.aerodynamics.Cntot                                     = float(lines[21][33:41].strip())
+            case_res.aerodynamics.Cltot                                     = float(lines[19][31:41].strip())
+            case_res.aerodynamics.Cmtot                                     = float(lines[20][31:41].strip()) 
+            case_res.aerodynamics.Cntot                                     = float(lines[21][31:41].strip())
                                                                             
-            case_res.aerodynamics.roll_moment_coefficient                   = float(lines[19][32:42].strip())
-            case_res.aerodynamics.pitch_moment_coefficient                  = float(lines[20][32:42].strip())
-            case_res.aerodynamics.yaw_moment_coefficient                    = float(lines[21][32:42].strip())
+            case_res.aerodynamics.roll_moment_coefficient                   = float(lines[19][31:41].strip())
+            case_res.aerodynamics.pitch_moment_coefficient                  = float(lines[20][31:41].strip())
+            case_res.aerodynamics.yaw_moment_coefficient                    = float(lines[21][31:41].strip())
             case_res.aerodynamics.total_lift_coefficient                    = float(lines[23][10:20].strip())
             case_res.aerodynamics.total_drag_coefficient                    = float(lines[24][10:20].strip())
             case_res.aerodynamics.viscous_drag_coefficient                  = float(lines[25][10:20].strip())
             case_res.aerodynamics.induced_drag_coefficient                  = float(lines[25][32:42].strip())
             case_res.aerodynamics.oswald_efficiency                         = float(lines[27][32:42].strip())
                
-            case_res.stability.alpha_derivatives.lift_curve_slope           = float(lines[36+num_ctrl][24:34].strip()) # CL_a
-            case_res.stability.alpha_derivatives.side_force_derivative      = float(lines[37+num_ctrl][24:34].strip()) # CY_a
-            case_res.stability.alpha_derivatives.roll_moment_derivative     = float(lines[38+num_ctrl][24:34].strip()) # Cl_a
-            case_res.stability.alpha_derivatives.pitch_moment_derivative    = float(lines[39+num_ctrl][24:34].strip()) # Cm_a
-            case_res.stability.alpha_derivatives.yaw_moment_derivative      = float(lines[40+num_ctrl][24:34].strip()) # Cn_a
+            case_res.stability.alpha_derivatives.lift_curve_slope           = float(lines[36+num_ctrl][23:34].strip()) # CL_a
+            case_res.stability.alpha_derivatives.side_force_derivative      = float(lines[37+num_ctrl][23:34].strip()) # CY_a
+            case_res.stability.alpha_derivatives.roll_moment_derivative     = float(lines[38+num_ctrl][23:34].strip()) # Cl_a
+            case_res.stability.alpha_derivatives.pitch_moment_derivative    = float(lines[39+num_ctrl][23:34].strip()) # Cm_a
+            case_res.stability.alpha_derivatives.yaw_moment_derivative      = float(lines[40+num_ctrl][23:34].strip()) # Cn_a
             case_res.stability.beta_derivatives.lift_coefficient_derivative = float(lines[36+num_ctrl][43:54].strip()) # CL_b
             case_res.stability.beta_derivatives.side_force_derivative       = float(lines[37+num_ctrl][43:54].strip()) # CY_b
             case_res.stability.beta_derivatives.roll_moment_derivative      = float(lines[38+num_ctrl][43:54].strip()) # Cl_b
             case_res.stability.beta_derivatives.pitch_moment_derivative     = float(lines[39+num_ctrl][43:54].strip()) # Cm_b
             case_res.stability.beta_derivatives.yaw_moment_derivative       = float(lines[40+num_ctrl][43:54].strip()) # Cn_b
-            case_res.stability.CL_p                                         = float(lines[44+num_ctrl][24:34].strip())
+            case_res.stability.CL_p                                         = float(lines[44+num_ctrl][23:34].strip())
             case_res.stability.CL_q                                         = float(lines[44+num_ctrl][43:54].strip())
-            case_res.stability.CL_r                                         = float(lines[44+num_ctrl][65:74].strip())
-            case_res.stability.CY_p                                         = float(lines[45+num_ctrl][24:34].strip())
+            case_res.stability.CL_r                                         = float(lines[44+num_ctrl][63:74].strip())
+            case_res.stability.CY_p                                         = float(lines[45+num_ctrl][23:34].strip())
             case_res.stability.CY_q                                         = float(lines[45+num_ctrl][43:54].strip())
-            case_res.stability.CY_r                                         = float(lines[45+num_ctrl][65:74].strip())
-            case_res.stability.Cl_p                                         = float(lines[46+num_ctrl][24:34].strip())
+            case_res.stability.CY_r                                         = float(lines[45+num_ctrl][63:74].strip())
+            case_res.stability.Cl_p                                         = float(lines[46+num_ctrl][23:34].strip())
             case_res.stability.Cl_q                                         = float(lines[46+num_ctrl][43:54].strip())
-            case_res.stability.Cl_r                                         = float(lines[46+num_ctrl][65:74].strip())
-            case_res.stability.Cm_p                                         = float(lines[47+num_ctrl][24:34].strip())
+            case_res.stability.Cl_r                                         = float(lines[46+num_ctrl][63:74].strip())
+            case_res.stability.Cm_p                                         = float(lines[47+num_ctrl][23:34].strip())
             case_res.stability.Cm_q                                         = float(lines[47+num_ctrl][43:54].strip())
-            case_res.stability.Cm_r                                         = float(lines[44+num_ctrl][65:74].strip())
-            case_res.stability.Cn_p                                         = float(lines[48+num_ctrl][24:34].strip())
+            case_res.stability.Cm_r                                         = float(lines[44+num_ctrl][63:74].strip())
+            case_res.stability.Cn_p                                         = float(lines[48+num_ctrl][23:34].strip())
             case_res.stability.Cn_q                                         = float(lines[48+num_ctrl][43:54].strip())
-            case_res.stability.Cn_r                                         = float(lines[48+num_ctrl][65:74].strip())
+            case_res.stability.Cn_r                                         = float(lines[48+num_ctrl][63:74].strip())
              
             # this block of text reads in aerodynamic results related to the defined control surfaces 
             if num_ctrl != 0: 
@@ -146,9 +146,9 @@ def read_results(avl_object):
             line_idx     = 0
             header       = 12 + n_wings + n_fus_sec           
             for i in range(n_wings):
-                wing_area[i] = float(aero_lines[header + line_idx][7:14].strip())
-                wing_CL[i]   = float(aero_lines[header + line_idx][26:32].strip())
-                wing_CD[i]   = float(aero_lines[header + line_idx][35:41].strip())
+                wing_area[i] = float(aero_lines[header + line_idx].split()[1])
+                wing_CL[i]   = float(aero_lines[header + line_idx].split()[3])
+                wing_CD[i]   = float(aero_lines[header + line_idx].split()[4])
                 line_idx += 1                   
             case_res.aerodynamics.wing_areas = wing_area 
             case_res.aerodynamics.wing_CLs   = wing_CL 
@@ -184,43 +184,43 @@ def read_results(avl_object):
             # Extract results from body axis derivatives file                         
                                                                            
             lines_2                  = read_complete_lines(bod_der_vile) 
-            case_res.stability.CX_u  = float(lines_2[36+num_ctrl][24:34].strip())
+            case_res.stability.CX_u  = float(lines_2[36+num_ctrl][23:34].strip())
             case_res.stability.CX_v  = float(lines_2[36+num_ctrl][43:54].strip())
-            case_res.stability.CX_w  = float(lines_2[36+num_ctrl][65:74].strip())
-            case_res.stability.CY_u  = float(lines_2[37+num_ctrl][24:34].strip())
+            case_res.stability.CX_w  = float(lines_2[36+num_ctrl][63:74].strip())
+            case_res.stability.CY_u  = float(lines_2[37+num_ctrl][23:34].strip())
             case_res.stability.CY_v  = float(lines_2[37+num_ctrl][43:54].strip())
-            case_res.stability.CY_w  = float(lines_2[37+num_ctrl][65:74].strip())
-            case_res.stability.CZ_u  = float(lines_2[38+num_ctrl][24:34].strip())
+            case_res.stability.CY_w  = float(lines_2[37+num_ctrl][63:74].strip())
+            case_res.stability.CZ_u  = float(lines_2[38+num_ctrl][23:34].strip())
             case_res.stability.CZ_v  = float(lines_2[38+num_ctrl][43:54].strip())
-            case_res.stability.CZ_w  = float(lines_2[38+num_ctrl][65:74].strip())
-            case_res.stability.Cl_u  = float(lines_2[39+num_ctrl][24:34].strip())
+            case_res.stability.CZ_w  = float(lines_2[38+num_ctrl][63:74].strip())
+            case_res.stability.Cl_u  = float(lines_2[39+num_ctrl][23:34].strip())
             case_res.stability.Cl_v  = float(lines_2[39+num_ctrl][43:54].strip())
-            case_res.stability.Cl_w  = float(lines_2[39+num_ctrl][65:74].strip())
-            case_res.stability.Cm_u  = float(lines_2[40+num_ctrl][24:34].strip())
+            case_res.stability.Cl_w  = float(lines_2[39+num_ctrl][63:74].strip())
+            case_res.stability.Cm_u  = float(lines_2[40+num_ctrl][23:34].strip())
             case_res.stability.Cm_v  = float(lines_2[40+num_ctrl][43:54].strip())
-            case_res.stability.Cm_w  = float(lines_2[40+num_ctrl][65:74].strip())
-            case_res.stability.Cn_u  = float(lines_2[41+num_ctrl][24:34].strip())
+            case_res.stability.Cm_w  = float(lines_2[40+num_ctrl][63:74].strip())
+            case_res.stability.Cn_u  = float(lines_2[41+num_ctrl][23:34].strip())
             case_res.stability.Cn_v  = float(lines_2[41+num_ctrl][43:54].strip())
-            case_res.stability.Cn_w  = float(lines_2[41+num_ctrl][65:74].strip())
+            case_res.stability.Cn_w  = float(lines_2[41+num_ctrl][63:74].strip())
             
-            case_res.stability.CX_p  = float(lines_2[45+num_ctrl][24:34].strip())
+            case_res.stability.CX_p  = float(lines_2[45+num_ctrl][23:34].strip())
             case_res.stability.CX_q  = float(lines_2[45+num_ctrl][43:54].strip())
-            case_res.stability.CX_r  = float(lines_2[45+num_ctrl][65:74].strip())
-            case_res.stability.CY_p  = float(lines_2[46+num_ctrl][24:34].strip())
+            case_res.stability.CX_r  = float(lines_2[45+num_ctrl][63:74].strip())
+            case_res.stability.CY_p  = float(lines_2[46+num_ctrl][23:34].strip())
             case_res.stability.CY_q  = float(lines_2[46+num_ctrl][43:54].strip())
-            case_res.stability.CY_r  = float(lines_2[46+num_ctrl][65:74].strip())
-            case_res.stability.CZ_p  = float(lines_2[47+num_ctrl][24:34].strip())
+            case_res.stability.CY_r  = float(lines_2[46+num_ctrl][63:74].strip())
+            case_res.stability.CZ_p  = float(lines_2[47+num_ctrl][23:34].strip())
             case_res.stability.CZ_q  = float(lines_2[47+num_ctrl][43:54].strip())
-            case_res.stability.CZ_r  = float(lines_2[47+num_ctrl][65:74].strip())
-            case_res.stability.Cl_p  = float(lines_2[48+num_ctrl][24:34].strip())
+            case_res.stability.CZ_r  = float(lines_2[47+num_ctrl][63:74].strip())
+            case_res.stability.Cl_p  = float(lines_2[48+num_ctrl][23:34].strip())
             case_res.stability.Cl_q  = float(lines_2[48+num_ctrl][43:54].strip())
-            case_res.stability.Cl_r  = float(lines_2[48+num_ctrl][65:74].strip())
-            case_res.stability.Cm_p  = float(lines_2[49+num_ctrl][24:34].strip())
+            case_res.stability.Cl_r  = float(lines_2[48+num_ctrl][63:74].strip())
+            case_res.stability.Cm_p  = float(lines_2[49+num_ctrl][23:34].strip())
             case_res.stability.Cm_q  = float(lines_2[49+num_ctrl][43:54].strip())
-            case_res.stability.Cm_r  = float(lines_2[49+num_ctrl][65:74].strip())
-            case_res.stability.Cn_p  = float(lines_2[50+num_ctrl][24:34].strip())
+            case_res.stability.Cm_r  = float(lines_2[49+num_ctrl][63:74].strip())
+            case_res.stability.Cn_p  = float(lines_2[50+num_ctrl][23:34].strip())
             case_res.stability.Cn_q  = float(lines_2[50+num_ctrl][43:54].strip())
-            case_res.stability.Cn_r  = float(lines_2[50+num_ctrl][65:74].strip())
+            case_res.stability.Cn_r  = float(lines_2[50+num_ctrl][63:74].strip())
             
                 
         results.append(case_res)
-- 
2.43.0


From 3af9d45b214330e26fd6e7147a1156ce98388447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:43 +0000
Subject: [PATCH 29/61] fix: keep the sign of the left wing's spanwise stations
 in AVL results

---
 trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
index 43abef7..90a6d46 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/AVL/read_results.py
@@ -163,13 +163,13 @@ def read_results(avl_object):
             
             for i in range(n_wings): 
                 for j in range(n_sw):
-                    wing_local_span[i,j]      = float(aero_lines_2[header + j + line_idx][8:16].strip())
-                    wing_sectional_chord[i,j] = float(aero_lines_2[header + j + line_idx][16:24].strip()) 
-                    wing_cl[i,j]              = float(aero_lines_2[header + j + line_idx][61:69].strip())  
+                    wing_local_span[i,j]      = float(aero_lines_2[header + j + line_idx][6:15].strip())
+                    wing_sectional_chord[i,j] = float(aero_lines_2[header + j + line_idx][15:24].strip()) 
+                    wing_cl[i,j]              = float(aero_lines_2[header + j + line_idx][60:69].strip())  
                     # At high angle of attacks, AVL does not give an answer 
                     try:
-                        alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][43:51].strip())
-                        wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][70:78].strip())
+                        alpha_i[i,j]              = float(aero_lines_2[header + j + line_idx][42:51].strip())
+                        wing_cd[i,j]              = float(aero_lines_2[header + j + line_idx][69:78].strip())
                     except ValueError:
                         alpha_i[i,j]              = 0.
                         wing_cd[i,j]              = 0.
-- 
2.43.0


From 9b26f0d64c1dde91df67cffd369b0a0e798944c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:57 +0000
Subject: [PATCH 30/61] fix: refuse AVL training files cut in their last line

---
 trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py | 4 +++-
 trunk/SUAVE/Analyses/Stability/AVL.py             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
index aaac142..5476325 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/AVL_Inviscid.py
@@ -292,7 +292,9 @@ class AVL_Inviscid(Aerodynamics):
         if self.training_file:
             # load data 
             data_array    = np.loadtxt(self.training_file,ndmin=2)  
-            if len(data_array) != len_AoA*len_Mach:
+            with open(self.training_file,'r') as training_data:
+                complete = training_data.read().endswith('\n')
+            if not complete or len(data_array) != len_AoA*len_Mach:
                 raise ValueError('{} does not hold one row for every training point'.format(self.training_file))
             CL_1D         = np.atleast_2d(data_array[:,0]) 
             CD_1D         = np.atleast_2d(data_array[:,1])            
diff --git a/trunk/SUAVE/Analyses/Stability/AVL.py b/trunk/SUAVE/Analyses/Stability/AVL.py
index 5435fd2..449a994 100644
--- a/trunk/SUAVE/Analyses/Stability/AVL.py
+++ b/trunk/SUAVE/Analyses/Stability/AVL.py
@@ -297,7 +297,9 @@ class AVL(Stability):
         if self.training_file:
             # load data 
             data_array   = np.loadtxt(self.training_file,ndmin=2)  
-            if len(data_array) != len(AoA)*len(Mach):
+            with open(self.training_file,'r') as training_data:
+                complete = training_data.read().endswith('\n')
+            if not complete or len(data_array) != len(AoA)*len(Mach):
                 raise ValueError('{} does not hold one row for every training point'.format(self.training_file))
             CM_1D        = np.atleast_2d(data_array[:,0]) 
             Cm_alpha_1D  = np.atleast_2d(data_array[:,1])            
-- 
2.43.0


From 70232bd0d9cfd87951c1336dbc427ec5eabaa0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 31/61] fix: never take an earlier SU2 history for the one of a
 run that failed

---
 trunk/SUAVE/Input_Output/SU2/call_SU2_CFD.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Input_Output/SU2/call_SU2_CFD.py b/trunk/SUAVE/Input_Output/SU2/call_SU2_CFD.py
index da1fb78..68def35 100644
--- a/trunk/SUAVE/Input_Output/SU2/call_SU2_CFD.py
+++ b/trunk/SUAVE/Input_Output/SU2/call_SU2_CFD.py
@@ -33,19 +33,30 @@ def call_SU2_CFD(tag,parallel=False,processors=1):
     N/A
     """       
     
+    # remove the history of an earlier run, so that it is never taken for the one of this run
+    history_file = tag + '_history.dat'
+    try:
+        os.remove(history_file)
+    except FileNotFoundError:
+        pass
+    
     if parallel==True:
         sys.path.append(os.environ['SU2_HOME'])
         from parallel_computation import parallel_computation
         parallel_computation( tag+'.cfg', processors )
         pass
     else:
-        subprocess.call(['SU2_CFD',tag+'.cfg'])
+        exit_status = subprocess.call(['SU2_CFD',tag+'.cfg'])
+        if exit_status != 0:
+            raise RuntimeError('SU2_CFD ended with exit status {} running {}.cfg'.format(exit_status,tag))
         
-    f = open(tag + '_history.dat')
+    with open(history_file) as f:
+        lines = f.readlines()
         
     SU2_results = Data()    
     
-    lines = f.readlines()
+    if not lines or not lines[-1].endswith('\n'):
+        raise RuntimeError('{} is empty or cut short'.format(history_file))
     final_state = lines[-1].split(',')
     
     # Lift and Drag
-- 
2.43.0


From 8effdc308764d7b39c6f7f87629308359ffe5d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 32/61] fix: replace an SU2 training table only after the new
 one is completely written

---
 trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid.py       | 8 ++++++--
 trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid_Super.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid.py b/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid.py
index a7bfaef..9eaa296 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid.py
@@ -20,6 +20,7 @@ from SUAVE.Input_Output.SU2.write_SU2_cfg import write_SU2_cfg
 from sklearn.gaussian_process.kernels import ExpSineSquared
 
 # Package imports
+import os
 import numpy as np
 import time
 import matplotlib.pyplot as plt  
@@ -222,13 +223,16 @@ class SU2_inviscid(Aerodynamics):
             
             print('The total elapsed time to run SU2: '+ str(time1-time0) + '  Seconds')
         else:
-            data_array = np.loadtxt(self.training_file)
+            data_array = np.loadtxt(self.training_file,ndmin=2)
             xy         = data_array[:,0:2]
             CL         = data_array[:,2:3]
             CD         = data_array[:,3:4]
 
         # Save the data
-        np.savetxt(geometry.tag+'_data.txt',np.hstack([xy,CL,CD]),fmt='%10.8f',header='AoA Mach CL CD')
+        # the file gets its name when it is complete
+        file_name = geometry.tag+'_data.txt'
+        np.savetxt(file_name+'.tmp',np.hstack([xy,CL,CD]),fmt='%10.8f',header='AoA Mach CL CD')
+        os.replace(file_name+'.tmp',file_name)
 
         # Store training data
         training.coefficients = np.hstack([CL,CD])
diff --git a/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid_Super.py b/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid_Super.py
index 78cb05a..bb1d5f7 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid_Super.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/SU2_inviscid_Super.py
@@ -18,6 +18,7 @@ from SUAVE.Input_Output.SU2.call_SU2_CFD import call_SU2_CFD
 from SUAVE.Input_Output.SU2.write_SU2_cfg import write_SU2_cfg
 
 # Package imports
+import os
 import numpy as np
 import time
 import pylab as plt
@@ -216,13 +217,16 @@ class SU2_inviscid_Super(Aerodynamics):
             
             print('The total elapsed time to run SU2: '+ str(time1-time0) + '  Seconds')
         else:
-            data_array = np.loadtxt(self.training_file)
+            data_array = np.loadtxt(self.training_file,ndmin=2)
             xy         = data_array[:,0:2]
             CL         = data_array[:,2:3]
             CD         = data_array[:,3:4]
 
         # Save the data
-        np.savetxt(geometry.tag+'_data.txt',np.hstack([xy,CL,CD]),fmt='%10.8f',header='AoA Mach CL CD')
+        # the file gets its name when it is complete
+        file_name = geometry.tag+'_data.txt'
+        np.savetxt(file_name+'.tmp',np.hstack([xy,CL,CD]),fmt='%10.8f',header='AoA Mach CL CD')
+        os.replace(file_name+'.tmp',file_name)
 
         # Store training data
         training.coefficients = np.hstack([CL,CD])
-- 
2.43.0


From 61cbc7b3f7639673d228b5337305daf3ee990a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:44 +0000
Subject: [PATCH 33/61] fix: close the Gmsh script so that a failing write is
 reported

---
 trunk/SUAVE/Input_Output/GMSH/write_geo_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Input_Output/GMSH/write_geo_file.py b/trunk/SUAVE/Input_Output/GMSH/write_geo_file.py
index 7cbec2b..c786237 100644
--- a/trunk/SUAVE/Input_Output/GMSH/write_geo_file.py
+++ b/trunk/SUAVE/Input_Output/GMSH/write_geo_file.py
@@ -70,7 +70,7 @@ def write_geo_file(tag):
         total_count += 1
     
     f.write('Volume(' + str(total_count) + ') = {' + surface_num_str + '};\n')
-    f.close
+    f.close()
     
 ## @ingroup Input_Output-GMSH
 def read_keys(tag):
-- 
2.43.0


From af74469ff09ff85594ca8906d280a3d91f0ddfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 34/61] fix: use the lift of each wing in the OpenVSP
 compressibility drag

---
 .../Fidelity_Zero/Helper_Functions/wave_drag_lift.py  |  2 +-
 .../OpenVSP_Wave_Drag/compressibility_drag_total.py   | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/wave_drag_lift.py b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/wave_drag_lift.py
index f96d193..6c89fd4 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/wave_drag_lift.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/Common/Fidelity_Zero/Helper_Functions/wave_drag_lift.py
@@ -55,7 +55,7 @@ def wave_drag_lift(conditions,configuration,wing):
         CL = np.zeros_like(conditions.aerodynamics.lift_coefficient)
     else:
         # get wing specific CL
-        CL = conditions.aerodynamics.lift_breakdown.inviscid_wings_lift[wing.tag]
+        CL = conditions.aerodynamics.lift_breakdown.inviscid_wings[wing.tag]
     
     # Computations
     x = np.pi*ARL/4
diff --git a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
index 7b234c0..e865d54 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
@@ -90,7 +90,7 @@ def compressibility_drag_total(state,settings,geometry):
 
         # Calculate compressibility drag at Mach 0.99 and 1.05 for interpolation between
         # dummy variables are unused function outputs
-        (drag99,dummy1,dummy2) = drag_div(np.array([[0.99]] * len(Mc)),wing,cl,Sref_main)
+        (drag99,dummy1,dummy2) = drag_div(np.array([[0.99]] * len(Mc)),wing,cl[wing.tag],Sref_main)
         cdc_l = lift_wave_drag(conditions, 
                                   configuration, 
                                   wing, 
@@ -125,10 +125,11 @@ def compressibility_drag_total(state,settings,geometry):
     # For subsonic mach numbers, use drag divergence correlations to find the drag
     for k in wings.keys():
         wing = wings[k]    
-        (a,b,c) = drag_div(Mc[Mc <= 0.99],wing,k,cl[Mc <= 0.99],Sref_main)
-        cd_c[Mc <= 0.99] = cd_c[Mc <= 0.99] + a
-        mcc[Mc <= 0.99]  = b
-        MDiv[Mc <= 0.99] = c
+        low     = Mc[:,0] <= 0.99
+        (a,b,c) = drag_div(Mc[low],wing,cl[wing.tag][low],Sref_main)
+        cd_c[low] = cd_c[low] + a
+        mcc[low]  = b
+        MDiv[low] = c
         drag_breakdown.compressible[wing.tag]    = Data()
         drag_breakdown.compressible[wing.tag].divergence_mach = MDiv
         cd_c_l = lift_wave_drag(conditions, 
-- 
2.43.0


From 26ec1d0bda4367c31e3f6269fd8c86117ec6b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 35/61] fix: keep the flight conditions when the OpenVSP lift
 wave drag fails

---
 .../OpenVSP_Wave_Drag/compressibility_drag_total.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
index e865d54..ee2266c 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
@@ -193,9 +193,12 @@ def lift_wave_drag(conditions,configuration,wing,k,Sref_main,flag105):
 
     # This flag is for the interpolation mode
     if flag105 is True:
-        # Change conditions and short hand for calculations
-        conditions.freestream.mach_number = np.array([[1.05]] * len(Mc))
-        mach = conditions.freestream.mach_number
+        # Use other conditions and short hand for calculations, those passed in are not changed
+        mach = np.array([[1.05]] * len(Mc))
+        aerodynamics = conditions.aerodynamics
+        conditions   = Data()
+        conditions.freestream   = Data(mach_number = mach)
+        conditions.aerodynamics = aerodynamics
 
     # Initalize cd arrays
     cd_c_l = np.array([[0.0]] * len(mach)) # lift wave drag
@@ -210,7 +213,4 @@ def lift_wave_drag(conditions,configuration,wing,k,Sref_main,flag105):
     # Convert coefficient to full aircraft value
     cd_c_l = cd_c_l*wing.areas.reference/Sref_main
 
-    # Reset mach number to real values
-    conditions.freestream.mach_number = Mc
-
     return cd_c_l
-- 
2.43.0


From a5cca42344165cc984b7edfb7de17fe724a62de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 36/61] fix: raise when wave drag data of an earlier session
 cannot be removed

---
 .../SUAVE/Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py b/trunk/SUAVE/Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py
index 28f07c2..d9ebac2 100644
--- a/trunk/SUAVE/Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py
+++ b/trunk/SUAVE/Analyses/Aerodynamics/Supersonic_OpenVSP_Wave_Drag.py
@@ -127,7 +127,7 @@ class Supersonic_OpenVSP_Wave_Drag(Markup):
         # Remove old volume drag data so that new data can be appended without issues
         try:
             os.remove('volume_drag_data_' + self.geometry.tag + '.npy')  
-        except:
+        except FileNotFoundError:
             pass
         
         use_surrogate             = self.settings.use_surrogate
-- 
2.43.0


From b62bcb4ae049ab84e7fcabf4181a92fcb9e5cba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:03 +0000
Subject: [PATCH 37/61] fix: replace the wave drag data only after the new data
 is completely written

---
 .../compressibility_drag_total.py             |  6 ++--
 .../OpenVSP_Wave_Drag/wave_drag_volume.py     | 29 ++++++++++++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
index ee2266c..5bc5764 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/compressibility_drag_total.py
@@ -13,7 +13,7 @@ from SUAVE.Core import Data
 
 from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions import wave_drag_lift
 from SUAVE.Methods.Aerodynamics.Supersonic_Zero.Drag.compressibility_drag_total import drag_div
-from .wave_drag_volume import wave_drag_volume
+from .wave_drag_volume import wave_drag_volume, save_volume_drag
 
 import copy
 
@@ -102,7 +102,7 @@ def compressibility_drag_total(state,settings,geometry):
     try:
         old_array = np.load('volume_drag_data_' + geometry.tag + '.npy')
         file_exists = True
-    except:
+    except (OSError,ValueError,EOFError):
         file_exists = False
         old_array = np.array([[-1,-1]]) 
           
@@ -115,7 +115,7 @@ def compressibility_drag_total(state,settings,geometry):
         pass
     else:
         new_save_row = np.array([[1.05,cd_c_v]])
-        np.save('volume_drag_data_' + geometry.tag + '.npy', new_save_row)    
+        save_volume_drag(geometry.tag, new_save_row)    
     
 
     drag105 = drag105_total + cd_c_v*np.ones(np.shape(Mc))
diff --git a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py
index 5dcfac1..d1e55cc 100644
--- a/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py
+++ b/trunk/SUAVE/Methods/Aerodynamics/OpenVSP_Wave_Drag/wave_drag_volume.py
@@ -9,6 +9,7 @@
 # ----------------------------------------------------------------------
 
 import copy
+import os
 import numpy as np
 
 # ----------------------------------------------------------------------
@@ -77,7 +78,33 @@ def wave_drag_volume(conditions,geometry,flag105,num_slices=20,num_rots=10):
                 cd_w         = cd_w[0]*100./ref_area
                 new_save_row = np.array([[mach[0],cd_w]])
                 comb_array   = np.append(old_array,new_save_row,axis=0)
-                np.save('volume_drag_data_' + geometry.tag + '.npy', comb_array)
+                save_volume_drag(geometry.tag, comb_array)
             cd_w_all[ii] = cd_w
     
     return cd_w_all
+
+
+## @ingroup Methods-Aerodynamics-OpenVSP_Wave_Drag
+def save_volume_drag(tag,data):
+    """Saves volume drag data. The file gets its name when it is complete.
+
+    Assumptions:
+    None
+
+    Source:
+    N/A
+
+    Inputs:
+    tag                      <string>
+    data                     [-] Mach numbers and volume drag coefficients
+
+    Outputs:
+    volume_drag_data_<tag>.npy
+
+    Properties Used:
+    N/A
+    """        
+    filename = 'volume_drag_data_' + tag + '.npy'
+    with open(filename + '.tmp','wb') as f:
+        np.save(f, data)
+    os.replace(filename + '.tmp', filename)
-- 
2.43.0


From e07bc6d659262fa04443da6989e00b4eb761ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 38/61] fix: enable unit contexts without changing their rules
 while looping over them

---
 trunk/SUAVE/Plugins/pint/unit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Plugins/pint/unit.py b/trunk/SUAVE/Plugins/pint/unit.py
index a46572f..181b8ab 100644
--- a/trunk/SUAVE/Plugins/pint/unit.py
+++ b/trunk/SUAVE/Plugins/pint/unit.py
@@ -502,12 +502,12 @@ class UnitRegistry(object):
         for ctx in ctxs:
             if getattr(ctx, '_checked', False):
                 continue
-            for (src, dst), func in ctx.funcs.items():
-                src_ = self.get_dimensionality(dict(src))
-                dst_ = self.get_dimensionality(dict(dst))
+            for (src, dst), func in list(ctx.funcs.items()):
+                src_, dst_ = ctx.__keytransform__(self.get_dimensionality(dict(src)),
+                                                  self.get_dimensionality(dict(dst)))
                 if src != src_ or dst != dst_:
-                    ctx.remove_transformation(src, dst)
                     ctx.add_transformation(src_, dst_, func)
+                    ctx.remove_transformation(src, dst)
             ctx._checked = True
 
         # and create a new one with the new defaults.
-- 
2.43.0


From a885eb9550d760cf70fd81cb157b6aadfbc8c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:02 +0000
Subject: [PATCH 39/61] fix: keep the enclosing unit contexts when an inner
 block of several ends

---
 trunk/SUAVE/Plugins/pint/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Plugins/pint/context.py b/trunk/SUAVE/Plugins/pint/context.py
index 71c7064..0a5b218 100644
--- a/trunk/SUAVE/Plugins/pint/context.py
+++ b/trunk/SUAVE/Plugins/pint/context.py
@@ -203,7 +203,7 @@ class ContextChain(ChainMap):
         To facilitate the identification of the context with the matching rule,
         the *relation_to_context* dictionary of the context is used.
         """
-        self._contexts.insert(0, contexts)
+        self._contexts = list(reversed(contexts)) + self._contexts
         self.maps = [ctx.relation_to_context for ctx in reversed(contexts)] + self.maps
         self._graph = None
 
-- 
2.43.0


From 4397fbe592ceb10ed44ebb151c37c23a7d8b33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:14 +0000
Subject: [PATCH 40/61] fix: keep the rules of unit contexts when a conversion
 is interrupted while they are collected

---
 trunk/SUAVE/Plugins/pint/context.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Plugins/pint/context.py b/trunk/SUAVE/Plugins/pint/context.py
index 0a5b218..08ed259 100644
--- a/trunk/SUAVE/Plugins/pint/context.py
+++ b/trunk/SUAVE/Plugins/pint/context.py
@@ -225,9 +225,10 @@ class ContextChain(ChainMap):
         """The graph relating
         """
         if self._graph is None:
-            self._graph = defaultdict(set)
+            graph = defaultdict(set)
             for fr_, to_ in self:
-                self._graph[fr_].add(to_)
+                graph[fr_].add(to_)
+            self._graph = graph
         return self._graph
 
     def transform(self, src, dst, registry, value):
-- 
2.43.0


From aec3c0a0482f827b8b80bb64687d716ec66af51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 41/61] fix: extend containers with lists of components

---
 trunk/SUAVE/Core/Container.py        | 2 +-
 trunk/SUAVE/Core/ContainerOrdered.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index b15b2ef..0e1d40d 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -134,7 +134,7 @@ class Container(Data):
             N/A
         """         
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
diff --git a/trunk/SUAVE/Core/ContainerOrdered.py b/trunk/SUAVE/Core/ContainerOrdered.py
index 706c4f6..12b3a6e 100644
--- a/trunk/SUAVE/Core/ContainerOrdered.py
+++ b/trunk/SUAVE/Core/ContainerOrdered.py
@@ -110,7 +110,7 @@ class ContainerOrdered(DataOrdered):
             N/A
             """          
         if isinstance(vals,(list,tuple)):
-            for v in val: self.append(v)
+            for v in vals: self.append(v)
         elif isinstance(vals,dict):
             self.update(vals)
         else:
-- 
2.43.0


From 1edfc87c8161d70d5c6f9e65f1853990a8f9a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 42/61] fix: refuse to append to an ordered container under a
 name that is taken

---
 trunk/SUAVE/Core/DataOrdered.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index a28b2af..8b97285 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -161,7 +161,7 @@ class DataOrdered(OrderedDict):
         if key is None: key = value.tag
         key = key.translate(t_table)
         if key is None: key = value.tag
-        if key in self: raise KeyError('key "%s" already exists' % key)
+        if hasattr(self,key): raise KeyError('key "%s" already exists' % key)
         self.__setattr__(key,value)    
 
     def __defaults__(self):
-- 
2.43.0


From 89cee8258ed6c03b2ea120a5a342bad82095a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 43/61] fix: never leave a name without its value in an ordered
 container

---
 trunk/SUAVE/Core/DataOrdered.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index 8b97285..f071860 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -686,8 +686,17 @@ class DataOrdered(OrderedDict):
             root = dict.__getitem__(self,'_root')
             last = root[0]
             map  = dict.__getitem__(self,'_map')
-            last[1] = root[0] = map[key] = [last, root, key]
-        OrderedDict.__setattr__(self,key, value)
+            try:
+                last[1] = root[0] = map[key] = [last, root, key]
+                OrderedDict.__setattr__(self,key, value)
+            except BaseException:
+                # no link without its value
+                map.pop(key,None)
+                last[1], root[0] = root, last
+                OrderedDict.__getattribute__(self,'__dict__').pop(key,None)
+                raise
+        else:
+            OrderedDict.__setattr__(self,key, value)
 
     def __setitem__(self,k,v):
         """ An override of the standard __setattr_ in Python.
-- 
2.43.0


From 1e25889de87de963fc6f0d448645db98e199d82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 44/61] fix: count on until the name of a duplicate component
 is free

---
 trunk/SUAVE/Core/Container.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index 0e1d40d..48d3b47 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -13,7 +13,6 @@
 
 from .Data     import Data
 from warnings import warn
-import random
 
 import string
 chars = string.punctuation + string.whitespace
@@ -109,9 +108,10 @@ class Container(Data):
             n_comps = string_of_keys.count(val.tag)
             val.tag = tag + str(n_comps+1)
             
-            # Check again, because theres an outside chance that its duplicate again. Then assign a random
-            if val.tag in keys:
-                val.tag = tag + str(n_comps+random.randint(0,1000))
+            # Check again, because theres an outside chance that its duplicate again. Then count on
+            while val.tag in keys:
+                n_comps = n_comps + 1
+                val.tag = tag + str(n_comps+1)
         
         Data.append(self,val)
         
-- 
2.43.0


From b1ad09c05915dd88375ad89db387b7fb7897a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:48 +0000
Subject: [PATCH 45/61] fix: never hide the methods of a container behind a
 component of the same name

---
 trunk/SUAVE/Core/Container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Core/Container.py b/trunk/SUAVE/Core/Container.py
index 48d3b47..69a8d9c 100644
--- a/trunk/SUAVE/Core/Container.py
+++ b/trunk/SUAVE/Core/Container.py
@@ -99,11 +99,11 @@ class Container(Data):
             N/A
         """           
         
-        # See if the item tag exists, if it does modify the name
+        # See if the item tag exists or would hide a method, if it does modify the name
         keys = self.keys()
         
         tag = str.lower(val.tag.translate(t_table))
-        if tag in keys:
+        if tag in keys or hasattr(Data,tag):
             string_of_keys = "".join(self.keys())
             n_comps = string_of_keys.count(val.tag)
             val.tag = tag + str(n_comps+1)
-- 
2.43.0


From f463011a25a09099678e57fb1e8099414d35aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 46/61] fix: copy every item of an ordered container, whatever
 its name

---
 trunk/SUAVE/Core/DataOrdered.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index f071860..a2bec0c 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -988,5 +988,6 @@ def _reconstructor(klass,items):
         N/A    
     """        
     self = DataOrdered.__new__(klass)
-    DataOrdered.__init__(self,items)
+    for key,value in items:
+        self[key] = value
     return self
\ No newline at end of file
-- 
2.43.0


From 6d695c0ea8a0f948a4a10389f79e4a0527fad6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 47/61] fix: withdraw the convergence reports of segments when
 a new evaluation starts

---
 .../Analyses/Mission/Segments/Segment.py      | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/trunk/SUAVE/Analyses/Mission/Segments/Segment.py b/trunk/SUAVE/Analyses/Mission/Segments/Segment.py
index 1642f05..5515fec 100644
--- a/trunk/SUAVE/Analyses/Mission/Segments/Segment.py
+++ b/trunk/SUAVE/Analyses/Mission/Segments/Segment.py
@@ -177,9 +177,37 @@ class Segment(Analysis):
         """          
         if state is None:
             state = self.state
+        self.reset_convergence()
         self.process(self)
         return self
     
+    def reset_convergence(self):
+        """ Withdraws the convergence reports of earlier evaluations
+    
+            Assumptions:
+            None
+    
+            Source:
+            N/A
+    
+            Inputs:
+            None
+    
+            Outputs:
+            self.state.numerics.converged [None]
+            self.converged                [boolean], if it was set before
+    
+            Properties Used:
+            None
+        """
+        self.state.numerics.converged = None
+        if 'converged' in self:
+            self.converged = False
+            
+        if 'segments' in self:
+            for sub_segment in self.segments.values():
+                sub_segment.reset_convergence()
+    
     
     def merged(self):
         """ Combines the states of multiple segments
-- 
2.43.0


From 5cc7501f903e439673a94b873c6c242ea1ffaa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 48/61] fix: report whether the optimizer of an optimized climb
 converged

---
 trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py | 4 +++-
 trunk/SUAVE/Methods/Missions/Segments/optimize.py        | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
index 58b9d41..849846d 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Climb/Optimized.py
@@ -8,6 +8,8 @@
 # ----------------------------------------------------------------------
 #  Imports
 # ----------------------------------------------------------------------
+from copy import deepcopy
+
 import numpy as np
 from SUAVE.Core import Units
 import SUAVE
@@ -224,7 +226,7 @@ def solve_linear_speed_constant_rate(segment):
     LSCR.climb_rate       = segment.seed_climb_rate
     LSCR.analyses         = segment.analyses
     LSCR.state.conditions = segment.state.conditions
-    LSCR.state.numerics   = segment.state.numerics
+    LSCR.state.numerics   = deepcopy(segment.state.numerics) # its convergence report is not that of the segment
     mini_mission.append_segment(LSCR)
     
     results = mini_mission.evaluate()
diff --git a/trunk/SUAVE/Methods/Missions/Segments/optimize.py b/trunk/SUAVE/Methods/Missions/Segments/optimize.py
index 9e94046..31dedad 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/optimize.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/optimize.py
@@ -55,7 +55,13 @@ def converge_opt(segment):
     
     # Solve the problem, based on chosen algorithm
     if segment.algorithm == 'SLSQP':
-        unknowns = opt.fmin_slsqp(obj,unknowns,f_eqcons=econ,f_ieqcons=iecon,bounds=bnds,iter=2000)
+        unknowns,_,_,imode,smode = opt.fmin_slsqp(obj,unknowns,f_eqcons=econ,f_ieqcons=iecon,bounds=bnds,iter=2000,full_output=True)
+        
+        if imode != 0:
+            print("Segment did not converge. Segment Tag: " + segment.tag)
+            print("Error Message:\n" + smode)
+        segment.state.numerics.converged = bool(imode == 0)
+        segment.converged                = bool(imode == 0)
         
     elif segment.algorithm == 'SNOPT':
         
-- 
2.43.0


From 7388e44845c002f2a0b3fc16a7a156a5f8279849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:59 +0000
Subject: [PATCH 49/61] fix: keep the numerics of a mission when the states of
 its segments are merged

---
 .../SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
index 63ae2e2..8489730 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
@@ -160,7 +160,11 @@ def merge_sub_segment_states(segment):
                                 
     """       
 
-    segment.state.update(segment.merged())
+    merged = segment.merged()
+    
+    # The numerics and initials belong to the mission, they are not merged
+    for key in ['unknowns','conditions','residuals']:
+        segment.state[key].update(merged[key])
 
 # ----------------------------------------------------------------------
 #  Sequential Sub Segments
-- 
2.43.0


From af2dfb7d50b44b5328ccc1ccc541154c814d8d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 50/61] fix: do not start to solve a segment from the unknowns
 of an attempt that failed

---
 .../Mission/Segments/Conditions/Numerics.py   |  1 +
 .../Missions/Segments/converge_root.py        | 36 +++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Numerics.py b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Numerics.py
index ba2bb18..ded941f 100644
--- a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Numerics.py
+++ b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Numerics.py
@@ -55,6 +55,7 @@ class Numerics(Conditions):
         self.solver_jacobian                  = "none"
         self.tolerance_solution               = 1e-8
         self.converged                        = None
+        self.failed_solution                  = None
         self.max_evaluations                  = 0.
         self.step_size                        = None
         
diff --git a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
index 493b0f4..543b753 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
@@ -11,6 +11,7 @@
 import scipy.optimize
 import numpy as np
 
+from SUAVE.Core import Data
 from SUAVE.Core.Arrays import array_type
 
 # ----------------------------------------------------------------------
@@ -42,20 +43,41 @@ def converge_root(segment):
     
     unknowns = segment.state.unknowns.pack_array()
     
+    # The unknowns an attempt without success ended with are no place to start from.
+    # Those which were changed since then are kept.
+    failed = segment.state.numerics.failed_solution
+    if failed is not None and failed.end.shape == unknowns.shape:
+        unchanged = (unknowns == failed.end) | (np.isnan(unknowns) & np.isnan(failed.end))
+        unknowns  = np.where(unchanged,failed.start,unknowns)
+    segment.state.numerics.failed_solution = None
+        
+    start = unknowns.copy()
+    
     try:
         root_finder = segment.settings.root_finder
     except AttributeError:
         root_finder = scipy.optimize.fsolve 
     
-    unknowns,infodict,ier,msg = root_finder( iterate,
-                                         unknowns,
-                                         args = segment,
-                                         xtol = segment.state.numerics.tolerance_solution,
-                                         maxfev = segment.state.numerics.max_evaluations,
-                                         epsfcn = segment.state.numerics.step_size,
-                                         full_output = 1)
+    try:
+        unknowns,infodict,ier,msg = root_finder( iterate,
+                                             unknowns,
+                                             args = segment,
+                                             xtol = segment.state.numerics.tolerance_solution,
+                                             maxfev = segment.state.numerics.max_evaluations,
+                                             epsfcn = segment.state.numerics.step_size,
+                                             full_output = 1)
+    except BaseException:
+        # The next attempt starts from where this one started
+        segment.state.unknowns.unpack_array(start)
+        for step in ('unpack_distance','unpack'):
+            if step in segment.process.iterate:
+                segment.process.iterate[step](segment)
+        raise
     
     if ier!=1:
+        segment.state.numerics.failed_solution       = Data()
+        segment.state.numerics.failed_solution.start = start
+        segment.state.numerics.failed_solution.end   = segment.state.unknowns.pack_array()
         print("Segment did not converge. Segment Tag: " + segment.tag)
         print("Error Message:\n" + msg)
         segment.state.numerics.converged = False
-- 
2.43.0


From aa1cb69da57943d9350acf793b6eab70aa29aafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 51/61] fix: let a mission recover from an evaluation that
 ended with undefined times or masses

---
 .../Methods/Missions/Segments/Common/Sub_Segments.py     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
index 8489730..6cbb1a5 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Sub_Segments.py
@@ -12,6 +12,8 @@
 #  Imports
 # ----------------------------------------------------------------------
 
+import numpy as np
+
 from SUAVE.Analyses import Process
 from SUAVE.Core import Data
 from SUAVE.Methods.skip import skip
@@ -53,6 +55,13 @@ def expand_sub_segments(segment):
         
         # Now we need to skip this next time because it's already done
         sub_segment.process.initialize.expand_state = skip
+        
+        # What is carried on from here has to be defined, whatever the last evaluation left behind
+        conditions = sub_segment.state.conditions
+        inertial   = conditions.frames.inertial
+        for carried in (inertial.time, inertial.position_vector, inertial.aircraft_range, conditions.weights.total_mass):
+            if not np.all(np.isfinite(carried)):
+                carried[:,:] = 0.
                
         if Process.verbose:
             print('segment end :' , tag)        
-- 
2.43.0


From 4d37c74074dd12964d12f5621deb14a0e3bd5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:30 +0000
Subject: [PATCH 52/61] fix: leave a converged segment at the solution and not
 at the last unknowns tried

---
 trunk/SUAVE/Methods/Missions/Segments/converge_root.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
index 543b753..2d5ca78 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
@@ -66,6 +66,10 @@ def converge_root(segment):
                                              maxfev = segment.state.numerics.max_evaluations,
                                              epsfcn = segment.state.numerics.step_size,
                                              full_output = 1)
+        
+        # The last unknowns the solver tried need not be the solution
+        if ier==1 and not np.array_equal(segment.state.unknowns.pack_array(),unknowns):
+            iterate(np.asarray(unknowns),segment)
     except BaseException:
         # The next attempt starts from where this one started
         segment.state.unknowns.unpack_array(start)
-- 
2.43.0


From d096daab02363c7f916fdef5fc7dab67477a488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 53/61] fix: let interrupts and memory errors through the
 expansion of mission states

---
 trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py | 2 +-
 trunk/SUAVE/Analyses/Mission/Segments/Conditions/State.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py
index 4162725..bd0c61b 100644
--- a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py
+++ b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/Conditions.py
@@ -127,7 +127,7 @@ class Conditions(Data):
         for k,v in self.items():
             try:
                 rank = v.ndim
-            except:
+            except AttributeError:
                 rank = 0
             # recursion
             if isinstance(v,Conditions):
diff --git a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/State.py b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/State.py
index 1c657d5..15d85de 100644
--- a/trunk/SUAVE/Analyses/Mission/Segments/Conditions/State.py
+++ b/trunk/SUAVE/Analyses/Mission/Segments/Conditions/State.py
@@ -90,7 +90,7 @@ class State(Conditions):
         for k,v in self.items(): 
             try:
                 rank = v.ndim
-            except:
+            except AttributeError:
                 rank = 0            
             # don't expand initials or numerics
             if k in ('initials','numerics'):
-- 
2.43.0


From eea404f4bceb0ee83c89e6325e41cc2129686a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 54/61] fix: start from defined times, masses and positions
 after an iteration that left them undefined

---
 .../Methods/Missions/Segments/Common/Frames.py      | 13 ++++++++++---
 .../Methods/Missions/Segments/Common/Weights.py     |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
index 774c420..150b455 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Frames.py
@@ -42,11 +42,15 @@ def initialize_inertial_position(segment):
                                 
     """    
     
+    # Values an earlier iteration left undefined are no place to start from
+    r_current = segment.state.conditions.frames.inertial.position_vector
+    R_current = segment.state.conditions.frames.inertial.aircraft_range
+    r_current[~np.isfinite(r_current)] = 0.
+    R_current[~np.isfinite(R_current)] = 0.
+    
     if segment.state.initials:
         r_initial = segment.state.initials.conditions.frames.inertial.position_vector
-        r_current = segment.state.conditions.frames.inertial.position_vector
         R_initial = segment.state.initials.conditions.frames.inertial.aircraft_range
-        R_current = segment.state.conditions.frames.inertial.aircraft_range
         
         if 'altitude' in segment.keys() and segment.altitude is not None:
             r_initial[-1,None,-1] = -segment.altitude
@@ -90,9 +94,12 @@ def initialize_time(segment):
                                 
     """        
     
+    # Times an earlier iteration left undefined cannot be shifted
+    t_current = segment.state.conditions.frames.inertial.time
+    t_current[~np.isfinite(t_current)] = 0.
+    
     if segment.state.initials:
         t_initial = segment.state.initials.conditions.frames.inertial.time
-        t_current = segment.state.conditions.frames.inertial.time
         
         segment.state.conditions.frames.inertial.time[:,:] = t_current + (t_initial[-1,0] - t_current[0,0])
         
diff --git a/trunk/SUAVE/Methods/Missions/Segments/Common/Weights.py b/trunk/SUAVE/Methods/Missions/Segments/Common/Weights.py
index 6257d4a..3f6ad94 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/Common/Weights.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/Common/Weights.py
@@ -44,7 +44,9 @@ def initialize_weights(segment):
 
         m_initial = segment.analyses.weights.vehicle.mass_properties.takeoff
 
+    # Masses an earlier iteration left undefined cannot be shifted
     m_current = segment.state.conditions.weights.total_mass
+    m_current = np.where(np.isfinite(m_current),m_current,0.)
     
     segment.state.conditions.weights.total_mass[:,:] = m_current + (m_initial - m_current[0,0])
         
-- 
2.43.0


From 8dde39fa50fce613b8deedf2c9f948cedd3643cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:38 +0000
Subject: [PATCH 55/61] fix: hand the restored unknowns of a merged mission on
 to its segments

---
 trunk/SUAVE/Methods/Missions/Segments/converge_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
index 2d5ca78..0aec101 100644
--- a/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
+++ b/trunk/SUAVE/Methods/Missions/Segments/converge_root.py
@@ -74,7 +74,7 @@ def converge_root(segment):
         # The next attempt starts from where this one started
         segment.state.unknowns.unpack_array(start)
         for step in ('unpack_distance','unpack'):
-            if step in segment.process.iterate:
+            if step in segment.process.iterate.keys():
                 segment.process.iterate[step](segment)
         raise
     
-- 
2.43.0


From 43997dccf494b94ce1828f75678a43c052b73b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:54 +0000
Subject: [PATCH 56/61] fix: report the differences of a configuration in a
 fixed order

---
 trunk/SUAVE/Core/Diffed_Data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Core/Diffed_Data.py b/trunk/SUAVE/Core/Diffed_Data.py
index 5db9c43..21d35bb 100644
--- a/trunk/SUAVE/Core/Diffed_Data.py
+++ b/trunk/SUAVE/Core/Diffed_Data.py
@@ -304,9 +304,9 @@ def diff(A,B):
         N/A    
     """      
 
-    keys = set([])
-    keys.update( A.keys() )
-    keys.update( B.keys() )
+    # in the order of A, so that the differences come in the same order every time
+    keys = list(A.keys())
+    keys.extend( key for key in B.keys() if key not in keys )
 
     if isinstance(A,Diffed_Data):
         keys.remove('_base')
-- 
2.43.0


From cccffd37781191b83a8913cbeb60cef21e9fcd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 57/61] fix: give each general aviation landing gear weight an
 object of its own

landing_gear() stored its results on the class Data itself, so from the first call on every
Data object had attributes main and nose with these values.
---
 .../Weights/Correlations/General_Aviation/landing_gear.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
index bc6c142..439ab8e 100644
--- a/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
+++ b/trunk/SUAVE/Methods/Weights/Correlations/General_Aviation/landing_gear.py
@@ -41,7 +41,7 @@ def landing_gear(landing_weight, Nult, strut_length_main, strut_length_nose):
     nose_weight = .125*((Nult*W_l)**.566)*(l_n/12.)**.845
 
     #pack outputs
-    output = Data
+    output = Data()
     output.main = main_weight*Units.lbs
     output.nose = nose_weight*Units.lbs
 
-- 
2.43.0


From 50f1efb3eccca2eb28472ddb7a181e61f1484510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:53 +0000
Subject: [PATCH 58/61] fix: a configuration without stored differences keeps
 its values when it pulls its base

The initial differences were the defaults of Vehicle, so that pull_base() set
the passengers, reference area, tag etc. of the configuration to zero.
---
 trunk/SUAVE/Components/Configs/Config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trunk/SUAVE/Components/Configs/Config.py b/trunk/SUAVE/Components/Configs/Config.py
index 6523fa0..dcac565 100644
--- a/trunk/SUAVE/Components/Configs/Config.py
+++ b/trunk/SUAVE/Components/Configs/Config.py
@@ -49,3 +49,4 @@ class Config(Diffed_Data,Vehicle):
         self.tag    = 'config'
         self._base  = Vehicle()
         self._diff  = Vehicle()
+        self._diff.clear() # no differences stored yet
-- 
2.43.0


From 46b1a8415786894ecf7e3481a9cec141c2f7c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:53 +0000
Subject: [PATCH 59/61] fix: configurations share no values with their base
 after pull_base

Arrays and added components were the same objects in the base, in every
configuration that pulled it and in the stored differences, so that changing
one configuration changed the others.
---
 trunk/SUAVE/Core/Diffed_Data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trunk/SUAVE/Core/Diffed_Data.py b/trunk/SUAVE/Core/Diffed_Data.py
index 21d35bb..0036d79 100644
--- a/trunk/SUAVE/Core/Diffed_Data.py
+++ b/trunk/SUAVE/Core/Diffed_Data.py
@@ -96,7 +96,7 @@ class Diffed_Data(Data):
             N/A    
         """          
         delta = diff(self,self._base)
-        self._diff = delta
+        self._diff = deepcopy(delta) # later changes in place are not part of the stored differences
         
     def pull_base(self):
         """ Updates the differences
@@ -118,8 +118,9 @@ class Diffed_Data(Data):
         """          
         try: self._base.pull_base()
         except AttributeError: pass
-        self.update(self._base)
-        self.update(self._diff)
+        # deepcopies, so that the configuration can be changed without changing what it was pulled from
+        self.update(deepcopy(self._base))
+        self.update(deepcopy(self._diff))
     
     def __str__(self,indent=''):
         """ This function is used for printing the class.
-- 
2.43.0


From 1f519f194ae8bbab2d4aaa2b0f38483e3c45c765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:53 +0000
Subject: [PATCH 60/61] fix: Data.update does not replace a whole component
 when memory runs out

A MemoryError in a nested update was swallowed and the component replaced by
the values that should have been merged into it.
---
 trunk/SUAVE/Core/Data.py        | 2 ++
 trunk/SUAVE/Core/DataOrdered.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 586b040..62660fe 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -444,6 +444,8 @@ class Data(dict):
         
             try:
                 self[k].update(v)
+            except MemoryError:
+                raise
             except Exception:
                 self[k] = v
         return
diff --git a/trunk/SUAVE/Core/DataOrdered.py b/trunk/SUAVE/Core/DataOrdered.py
index a2bec0c..beb6fb4 100644
--- a/trunk/SUAVE/Core/DataOrdered.py
+++ b/trunk/SUAVE/Core/DataOrdered.py
@@ -541,6 +541,8 @@ class DataOrdered(OrderedDict):
         
             try:
                 self[k].update(v)
+            except MemoryError:
+                raise
             except Exception:
                 self[k] = v
         return 
-- 
2.43.0


From fb5f6af6dbcdbbf61ca2493d53a0b3b142ce6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:54 +0000
Subject: [PATCH 61/61] fix: copies and pickles of Data do not get back removed
 defaults

A deepcopy of a component from which a default entry was removed had that entry
again, and a deepcopy of a configuration had all the defaults of its class among
its stored differences, so that pull_base() set it to defaults.
---
 trunk/SUAVE/Core/Data.py | 45 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/trunk/SUAVE/Core/Data.py b/trunk/SUAVE/Core/Data.py
index 62660fe..94371a3 100644
--- a/trunk/SUAVE/Core/Data.py
+++ b/trunk/SUAVE/Core/Data.py
@@ -177,6 +177,28 @@ class Data(dict):
             
         return self
     
+    def __reduce_ex__(self,protocol):
+        """ Used for copies and pickles. These hold what the original holds, defaults that
+            were removed from the original stay removed.
+    
+            Assumptions:
+            N/A
+    
+            Source:
+            N/A
+    
+            Inputs:
+            protocol
+    
+            Outputs:
+            how to rebuild this
+    
+            Properties Used:
+            N/A    
+        """         
+        reduced = super(Data,self).__reduce_ex__(max(protocol,2))
+        return (_without_defaults,(type(self),)) + reduced[2:]
+    
     def typestring(self):
         """ This function makes the .key.key structure in string form of Data()
     
@@ -855,4 +877,25 @@ class Data(dict):
         # do the update!
         do_operation(self,other,result)    
     
-        return result
\ No newline at end of file
+        return result
+
+# for rebuilding copies
+def _without_defaults(klass):
+    """ Makes a new Data() class that is empty
+
+        Assumptions:
+        N/A
+
+        Source:
+        N/A
+
+        Inputs:
+        klass
+
+        Outputs:
+        N/A
+
+        Properties Used:
+        N/A    
+    """        
+    return dict.__new__(klass)
-- 
2.43.0

