From fcb7285c67da60547581fc7e5bf6bac46d4afd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 01/94] fix: Hitcore.set does not store anything when the value
 is rejected

A value that is not a number (or, for the integer variables, not an int or
too large for one) raised but had already overwritten the variable with -1
or with the truncated value.
---
 xboa/core/pylib/PyHitcore.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyHitcore.cc b/xboa/core/pylib/PyHitcore.cc
index 542ebe4..36e417d 100644
--- a/xboa/core/pylib/PyHitcore.cc
+++ b/xboa/core/pylib/PyHitcore.cc
@@ -101,10 +101,19 @@ PyObject* set(PyObject* self, PyObject *args, PyObject *kwds) {
 
     std::string variable_name(variable_name_c_str);
     double value_dbl = PyFloat_AsDouble(py_value);
+    if (PyErr_Occurred()) // not a number; leave the hit unchanged
+        return NULL;
     if (hc->hitcore_->set_double(variable_name, value_dbl))
         Py_RETURN_NONE; // success, return None
 
-    int value_int = PyLong_AsLong(py_value);
+    long value_long = PyLong_AsLong(py_value);
+    if (PyErr_Occurred()) // not an integer; leave the hit unchanged
+        return NULL;
+    int value_int = value_long;
+    if (value_int != value_long) {
+        PyErr_SetString(PyExc_OverflowError, "Integer too large in Hitcore.set");
+        return NULL;
+    }
     if (hc->hitcore_->set_int(variable_name, value_int))
         Py_RETURN_NONE; // success, return None
 
-- 
2.43.0


From 9735c447e9591ab856437fb9bb4d57ad12ecfaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:45 +0000
Subject: [PATCH 02/94] fix: key global weights by (spill, event, particle)

Hitcore passed (spill, particle, event) so weights set through a
WeightContext were seen by a different hit.
---
 xboa/core/cpplib/Hitcore.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/core/cpplib/Hitcore.hh b/xboa/core/cpplib/Hitcore.hh
index 2f86092..9a60e16 100644
--- a/xboa/core/cpplib/Hitcore.hh
+++ b/xboa/core/cpplib/Hitcore.hh
@@ -436,12 +436,12 @@ Hitcore::get_dbl_function Hitcore::get_double_function(std::string key) {
 }
 
 void Hitcore::set_global_weight(double global_weight) {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     weightContext->setWeight(hitid, global_weight);
 }
 
 double Hitcore::global_weight() {
-    WeightContext::HitId hitid(spill_, particle_, event_);
+    WeightContext::HitId hitid(spill_, event_, particle_);
     double wt = weightContext->getWeight(hitid);
     return wt;
 }
-- 
2.43.0


From 2eb0c3f86ebf582e7eecdfb7f00bf58e5b9923e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 03/94] fix: WeightContext.get_weight and set_weight name and
 require their arguments

---
 xboa/core/pylib/PyWeightContext.cc | 34 ++++++++++++------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 1e3f269..8558cc2 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -40,12 +40,6 @@ std::string get_default_weight_docstring =
 std::string("\n");
 
 
-// A whole world of pain to make a non-const c-string. There must be an easier way!
-char* cstring(std::string word) {
-    char* dest = const_cast<char*>(word.data());
-    return dest;
-}
-
 typedef WeightContext::HitId HitId;
 
 PyObject* getDefaultWeight(PyObject* self, PyObject *args, PyObject *kwds) {
@@ -84,13 +78,13 @@ PyObject* setWeight(PyObject* self, PyObject *args, PyObject *kwds) {
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
     double weight;
     int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
-    };
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|diiiii",
-               &c_argnames[0],
-               &weight, &spill, &event, &particle, &event, &particle);
+    static char *kwlist[] = {const_cast<char*>("weight"),
+                             const_cast<char*>("spill"),
+                             const_cast<char*>("event_number"),
+                             const_cast<char*>("particle_number"),
+                             NULL};
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "diii", kwlist,
+               &weight, &spill, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
                 "Failed to parse variables in function PyWeightContext.setWeight");
@@ -109,14 +103,12 @@ PyObject* getWeight(PyObject* self, PyObject *args, PyObject *kwds) {
     }
     PyWeightContext* pywc = reinterpret_cast<PyWeightContext*>(self);
     int spill, event, particle;
-    std::vector<char*> c_argnames = {
-        cstring("spill"), cstring("event_number"), cstring("particle_number"),
-        cstring("eventNumber"), cstring("particleNumber"), NULL
-    };
-
-    int err = PyArg_ParseTupleAndKeywords(args, kwds, "|iiiii",
-               &c_argnames[0],
-               &spill, &event, &particle, &event, &particle);
+    static char *kwlist[] = {const_cast<char*>("spill"),
+                             const_cast<char*>("event_number"),
+                             const_cast<char*>("particle_number"),
+                             NULL};
+    int err = PyArg_ParseTupleAndKeywords(args, kwds, "iii", kwlist,
+               &spill, &event, &particle);
     if(err == 0) {
         PyErr_SetString(PyExc_KeyError,
                 "Failed to parse variables in function PyWeightContext.getWeight");
-- 
2.43.0


From 7598ad6b8ed8933b412333c3c26102e428d133fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:56 +0000
Subject: [PATCH 04/94] fix: Bunchcore weights follow
 Hitcore.set_weight_context

---
 xboa/core/pylib/PyBunchcore.cc | 41 +++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ceba265..7db350e 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -34,6 +34,26 @@ namespace xboa {
 namespace core {
 namespace PyBunchcore {
 
+// The _hitcore module owns the current WeightContext; this library has its own
+// copy of Hitcore::weightContext, so refresh it before using hit weights
+bool setWeightContext() {
+    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
+    if (hc_module == NULL)
+        return false;
+    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
+    Py_DECREF(hc_module);
+    if (hc_class == NULL)
+        return false;
+    PyObject* pyobj_wc = PyObject_CallMethod(hc_class, "get_weight_context", NULL);
+    Py_DECREF(hc_class);
+    if (pyobj_wc == NULL)
+        return false;
+    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
+    Hitcore::weightContext = pywc->cppcontext_;
+    Py_DECREF(pyobj_wc);
+    return true;
+}
+
 PyObject *alloc(PyTypeObject *type, Py_ssize_t nitems) {
     PyBunchcore* bc = new PyBunchcore();
     Py_SET_REFCNT(bc, 1);
@@ -212,6 +232,8 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments to pyobjects
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("means"),
@@ -267,6 +289,8 @@ PyObject* covariance_matrix(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments to pyobjects
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("means"),
@@ -324,6 +348,8 @@ PyObject* cut_double(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments
     static char *kwlist[] = {const_cast<char*>("cut_variable"),
                              const_cast<char*>("comparator"),
@@ -371,6 +397,8 @@ PyObject* moment_tensor(PyObject* self, PyObject *args, PyObject *kwds) {
                         "Failed to interpret self as a Bunchcore");
         return NULL;
     }
+    if (!setWeightContext())
+        return NULL;
     // Extract arguments
     static char *kwlist[] = {const_cast<char*>("axes"),
                              const_cast<char*>("max_power"),
@@ -526,16 +554,6 @@ static struct PyModuleDef bunchcoredef = {
     NULL,                /* m_free */
 };
 
-void setWeightContext() {
-    PyObject* hc_module = PyImport_ImportModule("xboa.core._hitcore");
-    PyObject* hc_class = PyObject_GetAttrString(hc_module, "Hitcore");
-    PyObject* get_context = PyObject_GetAttrString(hc_class, "get_weight_context");
-    PyObject* empty_tuple = PyTuple_New(0);
-    PyObject* pyobj_wc = PyObject_CallObject(get_context, empty_tuple);
-    PyWeightContext::PyWeightContext* pywc = reinterpret_cast<PyWeightContext::PyWeightContext*>(pyobj_wc);
-    Hitcore::weightContext = pywc->cppcontext_;
-}
-
 
 PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyBunchcoreType.tp_new = PyType_GenericNew;
@@ -566,7 +584,8 @@ PyMODINIT_FUNC PyInit__bunchcore(void) {
     PyDict_SetItemString(bc_dict, "C_API_CREATE_EMPTY_BUNCHCORE", ceb_c_api);
     PyDict_SetItemString(bc_dict, "C_API_GET_BUNCHCORE", gbc_c_api);
     PyDict_SetItemString(bc_dict, "C_API_SET_BUNCHCORE", sbc_c_api);
-    setWeightContext();
+    if (!setWeightContext())
+        return NULL;
     return module;
 }
 
-- 
2.43.0


From 9d1d82f05066ff8b6922833dbcfa933e5fa443c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 05/94] fix: core extension modules release their temporary
 Python references

---
 xboa/core/pylib/PyBunchcore.cc         | 1 -
 xboa/core/pylib/PyWeightContext.cc     | 9 ++++++---
 xboa/core/utils/PythonComparator.hh    | 6 +++++-
 xboa/core/utils/TypeConversions-inl.hh | 6 ++++--
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 7db350e..3d8f7e7 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -265,7 +265,6 @@ PyObject* moment(PyObject* self, PyObject *args, PyObject *kwds) {
 
     // return
     PyObject* py_moment = PyFloat_FromDouble(moment);
-    Py_INCREF(py_moment);
     return py_moment;
 }
 
diff --git a/xboa/core/pylib/PyWeightContext.cc b/xboa/core/pylib/PyWeightContext.cc
index 8558cc2..f80ae80 100644
--- a/xboa/core/pylib/PyWeightContext.cc
+++ b/xboa/core/pylib/PyWeightContext.cc
@@ -185,7 +185,7 @@ void _free(PyWeightContext * self) {
 }
 
 int parseArg(PyObject* o1, PyObject** f1, PyWeightContext** pywc1) {
-    *f1 = PyNumber_Float(o1);
+    *f1 = PyNumber_Float(o1); // new reference, owned by the caller
     *pywc1 = reinterpret_cast<PyWeightContext*>(o1);
     if (*f1 == nullptr) {
         PyErr_Clear();
@@ -222,8 +222,13 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
         return nullptr;
     }
     if (parseArg(o2, &f2, &pywc2) == 0) {
+        Py_XDECREF(f1);
         return nullptr;
     }
+    double d1 = f1 == nullptr ? 0. : PyFloat_AsDouble(f1);
+    double d2 = f2 == nullptr ? 0. : PyFloat_AsDouble(f2);
+    Py_XDECREF(f1);
+    Py_XDECREF(f2);
 
     if (pywc1 == nullptr && pywc2 == nullptr) { // shouldn't ever get here?
         PyErr_SetString(PyExc_NotImplementedError, "Not able to operate on these object types");
@@ -236,7 +241,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     if (pywc1 != nullptr) {
         WeightContext* wc1 = pywc1->cppcontext_.get();
         if (pywc2 == nullptr) {
-            double d2 = PyFloat_AsDouble(f2);
             wc3 = op.operate(*wc1, d2);
         } else {
             WeightContext* wc2 = pywc2->cppcontext_.get();
@@ -245,7 +249,6 @@ PyObject *binary_operator(PyObject *o1, PyObject *o2) {
     } else {
         WeightContext* wc2 = pywc2->cppcontext_.get();
         if (pywc1 == nullptr) {
-            double d1 = PyFloat_AsDouble(f1);
             try {
                 wc3 = op.operate(d1, *wc2);
             } catch (...) {
diff --git a/xboa/core/utils/PythonComparator.hh b/xboa/core/utils/PythonComparator.hh
index 74b8f6a..b80b4fb 100644
--- a/xboa/core/utils/PythonComparator.hh
+++ b/xboa/core/utils/PythonComparator.hh
@@ -63,12 +63,16 @@ bool PythonComparator::compare(double variable, double cut_value) const {
         return false;
     PyObject *args = Py_BuildValue("dd", variable, cut_value);
     PyObject *ret_bool = PyObject_CallObject(py_cmp_, args);
+    Py_XDECREF(args);
     if (ret_bool == NULL || !PyBool_Check(ret_bool)) {
+        Py_XDECREF(ret_bool);
         throw std::logic_error("Failed to call python comparator");
     }
     // I could check ret_bool using PyBool_Check I guess, and set a failflag in
     // the class
-    return ret_bool == Py_True;
+    bool is_true = (ret_bool == Py_True);
+    Py_DECREF(ret_bool);
+    return is_true;
 }
 
 }
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index 31bffcb..c012510 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -43,6 +43,7 @@ bool PyCppStringConverter::convert(PyObject* py_string,
         PyObject* bytes = PyUnicode_AsASCIIString(py_string);
         if (bytes) {
             *cpp_string = std::string(PyBytes_AsString(bytes));
+            Py_DECREF(bytes);
             return true;
         }
     }
@@ -133,13 +134,14 @@ bool CppPyMapToDictConverter<KEY, VALUE>::convert(
         PyErr_SetString(PyExc_RuntimeError, "Failed to allocate dict");
         return false;
     }
-    Py_INCREF(*py_dict);
     typename std::map<KEY, VALUE>::const_iterator it;
     for (it = std_map->begin(); it != std_map->end(); ++it) {
         PyObject *py_key, *py_value;
         if (key_c_->convert(&it->first, &py_key) &&
             value_c_->convert(&it->second, &py_value)) {
             PyDict_SetItem(*py_dict, py_key, py_value);
+            Py_DECREF(py_key);
+            Py_DECREF(py_value);
         } else {
             return false;
         }
@@ -171,7 +173,6 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
     }
 
     *py_list = PyList_New(0);
-    Py_INCREF(*py_list);
     for (size_t i = 0; i < std_vector->size(); ++i) {
         ELEMENT element = std_vector->at(i);
         PyObject* py_element;
@@ -183,6 +184,7 @@ bool CppPyVectorToListConverter<ELEMENT>::convert(
                             "Failed to append element");
             return false;
         }
+        Py_DECREF(py_element);
     }
     return true;
 }
-- 
2.43.0


From 4836bf5aeb32dd3e29d26fb115af5ed8c1659208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 06/94] fix: Bunchcore rejects indices it cannot hold instead
 of aborting

---
 xboa/core/pylib/PyBunchcore.cc         | 6 +++++-
 xboa/core/utils/TypeConversions-inl.hh | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index 3d8f7e7..ef3a472 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -168,7 +168,11 @@ PyObject* set_item(PyObject* self, PyObject *args, PyObject *kwds) {
                                  reinterpret_cast<PyHitcore::PyHitcore*>(py_hc);
 
     // Py_INCREF(py_hc);
-    bc->set_item(index, py_hc_alt->hitcore_);
+    try {
+        bc->set_item(index, py_hc_alt->hitcore_);
+    } catch (std::exception& exc) { // could not make the Bunchcore so long
+        return PyErr_NoMemory();
+    }
     Py_RETURN_NONE;
 }
 
diff --git a/xboa/core/utils/TypeConversions-inl.hh b/xboa/core/utils/TypeConversions-inl.hh
index c012510..9a11beb 100644
--- a/xboa/core/utils/TypeConversions-inl.hh
+++ b/xboa/core/utils/TypeConversions-inl.hh
@@ -24,6 +24,10 @@ bool PyCppIndexConverter::convert(PyObject* py_int, size_t* index) const {
         return false;
     }
     Py_ssize_t py_index = PyLong_AsSsize_t(py_int);
+    if (py_index == -1 && PyErr_Occurred()) { // too big for a Py_ssize_t
+        PyErr_SetString(PyExc_IndexError, "Index out of range");
+        return false;
+    }
     if (py_index < 0) {
         *index = abs(py_index+1);
     } else {
-- 
2.43.0


From 0b6d9fffb07e9bfd6e83b23d581fc486d3934474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 07/94] fix: making a Hit from a dict sets the global weight of
 that hit only

---
 xboa/hit/_hit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 1c17067..73368f0 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -145,7 +145,8 @@ class Hit(object):
     e.g. myHit = Hit.new_from_dict({'x':5, 'y':0, 'z':100, 'px':0, 'py':5, 'pz':200, 'pid':-13}, 'energy' )
     """
     my_hit = Hit()
-    for k,v in set_dict.items():
+    # global_weight belongs to (spill, event_number, particle_number): set it last
+    for k,v in sorted(set_dict.items(), key=lambda item: item[0] == 'global_weight'):
       my_hit.set(k, v)
     if(mass_shell_string != ''):
       my_hit.mass_shell_condition(mass_shell_string)
@@ -710,7 +711,8 @@ class Hit(object):
     Sets self to be equal to new_from_dict(state)
     """
     self.__init__()
-    for k,v in state.items():
+    # global_weight belongs to (spill, event_number, particle_number): set it last
+    for k,v in sorted(state.items(), key=lambda item: item[0] == 'global_weight'):
       self.set(k, v)
 
   #write formatted output - don't touch mass or pid beyond reading them
-- 
2.43.0


From 48831cf762cda70b95d276b009ce6b4daa9ceece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 08/94] fix: Hit.mass_shell_condition('p') with energy below
 mass sets p to 0

---
 xboa/hit/_hit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 73368f0..3b8f81e 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -304,7 +304,11 @@ class Hit(object):
     e  = self.get('energy')
     m  = self.get('mass')
     if(variable_string == 'p'):
-      self.set('p',  ( (e-m)*(e+m) )**0.5 )
+      val = (e-m)*(e+m)
+      if val < 0.:
+        self.set('p', 0.)
+        return False
+      self.set('p', val**0.5)
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-- 
2.43.0


From 029ef80b0d77d016f954c19995e673525293c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 09/94] fix: a failed write does not leave the Hit with a
 converted pid

---
 xboa/hit/_hit.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 3b8f81e..10f112a 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -405,15 +405,15 @@ class Hit(object):
     """
     if( format.find('maus') > -1 ):
       raise IOError("Can't write single maus hits, only lists of hits")
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.pdg_pid_to_icool[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.pdg_pid_to_mars [self.get('pid')])
-    self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
-    if( format.find('icool') > -1 ):
-      self.set('pid', Common.icool_pid_to_pdg[self.get('pid')])
-    if( format.find('mars') > -1 ):
-      self.set('pid', Common.mars_pid_to_pdg [self.get('pid')])
+    pid = self.get('pid')
+    try:
+      if( format.find('icool') > -1 ):
+        self.set('pid', Common.pdg_pid_to_icool[pid])
+      if( format.find('mars') > -1 ):
+        self.set('pid', Common.pdg_pid_to_mars [pid])
+      self.__write_formatted(self.__file_formats[format], self.__file_units[format], file_handle)
+    finally:
+      self.set('pid', pid)
 
   @classmethod
   def write_list_builtin_formatted(cls, list_of_hits, file_type_string, file_name, user_comment=None):
-- 
2.43.0


From 9c5cc785758257b40d65865a781f89741feb8c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 10/94] fix: Hit.set_g4bl_unit applies to reading as well as to
 writing

---
 xboa/hit/_hit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 10f112a..366f2eb 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -695,9 +695,10 @@ class Hit(object):
 
     e.g. set_g4bl_unit('m') would set the length unit to metres
     """
-    Hit.__file_units['g4beamline_bl_track_file']['x'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['y'] = unit
-    Hit.__file_units['g4beamline_bl_track_file']['z'] = unit
+    for file_units in Hit.__file_units, xboa.hit.factory.BuiltinHitFactory.file_units:
+      for format in 'g4beamline_bl_track_file', 'g4beamline_bl_track_file_2':
+        for var in 'x', 'y', 'z':
+          file_units[format][var] = unit
   set_g4bl_unit = staticmethod(set_g4bl_unit)
 
   def __getstate__(self):
-- 
2.43.0


From 1bc78e2579843e25cd02037a3dfd103fbf6d6363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 11/94] fix: MausJsonHitFactory reads hits with python 3

---
 xboa/hit/factory/_maus_json_hit_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/hit/factory/_maus_json_hit_factory.py b/xboa/hit/factory/_maus_json_hit_factory.py
index e8a0ad3..5ba41a6 100644
--- a/xboa/hit/factory/_maus_json_hit_factory.py
+++ b/xboa/hit/factory/_maus_json_hit_factory.py
@@ -130,10 +130,10 @@ class MausJsonHitFactory(HitFactoryBase):
         xboa_dict = {}
         three_vec_conversions = cls._maus_three_vec_conversions[format]
         conversion_dict = cls._maus_variable_conversions[format]
-        for maus_name, xboa_suffix in three_vec_conversions.iteritems():
-          for maus_xyz, value in maus_dict[maus_name].iteritems():
+        for maus_name, xboa_suffix in three_vec_conversions.items():
+          for maus_xyz, value in maus_dict[maus_name].items():
             xboa_dict[xboa_suffix+maus_xyz] = value
-        for maus_key, xboa_key in conversion_dict.iteritems():
+        for maus_key, xboa_key in conversion_dict.items():
           xboa_dict[xboa_key] = maus_dict[maus_key]
         xboa_dict['event_number'] = event_number
         if 'mass' not in xboa_dict.keys():
-- 
2.43.0


From ee0afdc241b8c4bdf1c0a9fda3b06c80cdd0a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 12/94] fix: hit_generator and Hit.new_list_from_maus_json
 return every hit

---
 xboa/hit/_hit.py                      |  2 +-
 xboa/hit/factory/_hit_factory_base.py | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 366f2eb..44bb185 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -217,7 +217,7 @@ class Hit(object):
     relevant maus_type. event_number will be given by the spill_number. 
     track_number will be given by the index on mc_events or recon_events.
     """
-    fac = xboa.hit.factory.factory.MausJsonHitFactory(format, file_handle)
+    fac = xboa.hit.factory.MausJsonHitFactory(filehandle, format)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
     
diff --git a/xboa/hit/factory/_hit_factory_base.py b/xboa/hit/factory/_hit_factory_base.py
index d51d445..af37f44 100644
--- a/xboa/hit/factory/_hit_factory_base.py
+++ b/xboa/hit/factory/_hit_factory_base.py
@@ -33,18 +33,15 @@ class HitFactoryBase(object):
         raise NotImplementedError("make_hit not implemented")
 
     def hit_generator(self):
-        try:
-            print("gen in")
-            yield self.make_hit()
-            print("gen out")
-        except (EOFError, xboa.hit.BadEventError):
-            self.new_spill()
+        """
+        Generate hits until there are none left to be read
+        """
+        while True:
             try:
-                yield self.make_hit()
+                hit = self.make_hit()
             except (EOFError, xboa.hit.BadEventError):
-                raise StopIteration("Finished")
-        except StopIteration:
-            raise
+                return
+            yield hit
 
     def new_spill(self):
         """
-- 
2.43.0


From 5bb2a48c2c35ce44cca31cc8824fd7227301906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 13/94] fix: Bunch.read_maus_json_file reads every requested
 type of hit

---
 xboa/bunch/_bunch.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 7cef33f..5a618ab 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -452,6 +452,7 @@ class Bunch:
     json_file = open(file_name, 'r')
     hits = []
     for maus_type in list_of_maus_types:
+        json_file.seek(0)
         fac = xboa.hit.factory.MausJsonHitFactory(json_file, maus_type)
         while number_of_hits < 0 or len(hits) < number_of_hits:
             try:
-- 
2.43.0


From f62b46257dec3d17abf2c4e2096fad937bb06b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 14/94] fix: deleting or replacing hits in a Bunch changes its
 Bunchcore in the same way

---
 xboa/bunch/_bunch.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 5a618ab..cc46197 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -122,13 +122,29 @@ class Bunch:
   
   def __setitem__(self, key, value):
     """Called by subscript operator, sets the key^th hit in the bunch"""
-    self.__hits[key] = value
-    self.__bunchcore.set_item(value._Hit__hitcore, key)
+    if isinstance(key, slice):
+      hits = list(self.__hits)
+      hits[key] = value
+      self.__set_hits(hits)
+    else:
+      hitcore = value._Hit__hitcore
+      self.__hits[key] = value
+      # Bunchcore counts negative indices in a different way
+      self.__bunchcore.set_item(hitcore, range(len(self.__hits))[key])
 
   def __delitem__(self, key):
     """Called by remove method, deletes the key^th hit in the bunch"""
-    self.__hits.__delitem__(key)
-    self.__bunchcore.__delitem__(key)
+    hits = list(self.__hits)
+    hits.__delitem__(key)
+    self.__set_hits(hits)
+
+  def __set_hits(self, hits):
+    """Set all of the hits in the bunch"""
+    bunchcore = Bunchcore()
+    for i, hit in enumerate(hits):
+      bunchcore.set_item(hit._Hit__hitcore, i)
+    self.__hits[:] = hits
+    self.__bunchcore = bunchcore
 
   def __del__(self):
     """Called by del"""
-- 
2.43.0


From 41c21aa60f527ed349ab0ce152b14cf4a213fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:23 +0000
Subject: [PATCH 15/94] fix: Bunch can use an internal covariance matrix

---
 xboa/bunch/_bunch.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index cc46197..ef81b0c 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -84,7 +84,7 @@ class Bunch:
   def __repr__(self):
     """Return a long string that contains data in every hit"""
     covs = 'None'
-    if self.__covs != None:
+    if self.__covs is not None:
       covs = 'numpy.'+repr(self.__covs)
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
@@ -698,7 +698,7 @@ class Bunch:
     """
     bunch_weight = self.bunch_weight()
     if abs(bunch_weight) < 1e-9: raise ZeroDivisionError('Trying to find moment of bunch with 0 weight')
-    if self.__covs != None and len(variable_list) == 2:
+    if self.__covs is not None and len(variable_list) == 2:
       axis_list = Bunch.axis_list_to_covariance_list(Bunch.__axis_list)
       try:
         i1 = axis_list.index(variable_list[0])
@@ -787,7 +787,7 @@ class Bunch:
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
     if use_internal_covariance_matrix:
-      if covariance_matrix == None:
+      if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__covs = covariance_matrix
       if mean_dict == {}:
@@ -799,7 +799,7 @@ class Bunch:
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-    return self.__covs != None
+    return self.__covs is not None
 
 
   def means_set(self):
@@ -1042,9 +1042,9 @@ class Bunch:
         coupled_axis_list2.append(ax) #build sorted list of coupled variables
     cov_var_list  = Bunch.axis_list_to_covariance_list(coupled_axis_list2)
     my_cov    = copy.deepcopy(covariance_matrix)
-    if my_cov == None:
+    if my_cov is None:
       my_cov = self.__cov_mat_picker(coupled_axis_list2)
-      if my_cov == None: 
+      if my_cov is None: 
         my_cov = self.covariance_matrix(cov_var_list)
     (evalues, ematrix) = numpy.linalg.eig(my_cov)
     ematrix = matrix(ematrix)
@@ -1897,7 +1897,7 @@ class Bunch:
 
   def __cov_mat_picker(self, axis_list):
     config.has_numpy()
-    if self.__covs == None: return None
+    if self.__covs is None: return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
-- 
2.43.0


From 58ec1a094bbc6a81f0b3337efe71d72756bfc434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 16/94] fix: bunches with internal covariances are equal only
 if their hits are

---
 xboa/bunch/_bunch.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ef81b0c..e6beb42 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -156,16 +156,12 @@ class Bunch:
     """Return true if all hits in self are the same as all hits in target, and set_covariance_matrix data are the same"""
     if type(target)      != type(self):          return False
     if len(self.__hits)  != len(target.__hits):  return False
+    if len(self.__means) != len(target.__means): return False
     for key,value in self.__means.items():
       if not key in target.__means:                                      return False
       if abs(self.__means[key] - target.__means[key]) > float_tolerance: return False
-    try:
-      if not all(self.__covs == target.__covs): return False
-    except:
-      try:
-        if self.__covs != target.__covs: return False 
-      except:
-        return True
+    if (self.__covs is None) != (target.__covs is None): return False
+    if self.__covs is not None and not numpy.array_equal(self.__covs, target.__covs): return False
     for index in range(len(self.__hits)):
       if self.__hits[index].__ne__( target.__hits[index], float_tolerance): return False
     return True
-- 
2.43.0


From a97c8f792cf105ef2429151c7786d1439693cb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 17/94] fix: repr of a Bunch keeps every digit of the internal
 covariances

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e6beb42..1ecf880 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -85,7 +85,7 @@ class Bunch:
     """Return a long string that contains data in every hit"""
     covs = 'None'
     if self.__covs is not None:
-      covs = 'numpy.'+repr(self.__covs)
+      covs = 'numpy.matrix('+repr(numpy.array(self.__covs).tolist())+')' # keeps every digit
     out = 'Bunch.new_from_hits( ['
     for hit in self.__hits:
       out += str(hit)+',\n'
-- 
2.43.0


From 79b316e892b23779ecf8ef65f81ad7bd495064d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:13 +0000
Subject: [PATCH 18/94] fix: Bunch.deepcopy copies hits that hold nan or inf

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 1ecf880..604e1df 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -102,7 +102,7 @@ class Bunch:
 
   def __deepcopy__(self, target):
     """Make a copy and copy self's data"""
-    target = eval(self.__repr__())
+    target = Bunch.new_from_hits(self.__hits)
     target.__covs  = copy.deepcopy(self.__covs)
     target.__means = copy.deepcopy(self.__means)
     return target
-- 
2.43.0


From ebaf4a3b8dbb1d6fcd91ff0657591b3143ce6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:32 +0000
Subject: [PATCH 19/94] fix: Bunch.moment is about the bunch mean of each
 variable that was not given a mean

---
 xboa/bunch/_bunch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 604e1df..e7fafab 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -702,8 +702,9 @@ class Bunch:
         return float(self.__covs[i1,i2]) # not numpy.float64
       except ValueError:
         pass
-    if variable_mean_dict == {}:
-      variable_mean_dict = self.mean(variable_list)
+    missing = [var for var in variable_list if not var in variable_mean_dict]
+    if len(missing) > 0:
+      variable_mean_dict = dict(self.mean(missing), **variable_mean_dict)
     try:
       moment = self.__bunchcore.moment(variable_list, variable_mean_dict)
       return moment
-- 
2.43.0


From 4e140555503658769b4df42df7806dfebca57b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 20/94] fix: Bunch.conditional_remove takes the standard
 deviation once

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e7fafab..3c0ffb0 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -640,7 +640,7 @@ class Bunch:
     """
     for variable, cut_value in variable_value_dict.items():
       if(value_is_nsigma_bool):
-        cut_value *= self.standard_deviation(variable, self.mean([variable]))**0.5
+        cut_value *= self.standard_deviation(variable, self.mean([variable]))
       # optimisation for amplitude cut: calculate covariance matrix first
       # optimisation for gt/lt: sort the hit_value_list first then cut
       hit_value_list = self.list_get_hit_variable([variable])[0]
-- 
2.43.0


From 08a5903defd60d7e67ef5a49a80ed0b92db88ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:07 +0000
Subject: [PATCH 21/94] fix: Bunch.hit_write_builtin_from_dict writes the user
 comment

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 3c0ffb0..3229daf 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1399,7 +1399,7 @@ class Bunch:
     all_hits = []
     for key,value in dict_of_bunches.items():
       all_hits += value.hits()
-    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name)
+    Hit.write_list_builtin_formatted(all_hits, file_type_string, file_name, user_comment)
   hit_write_builtin_from_dict = staticmethod(hit_write_builtin_from_dict)
   
   def hit_write_user(self, format_list, format_units_dict, file_handle, separator=' ', comparator=None):
-- 
2.43.0


From 5083ab2e5e9a4e51ff4bae3e7dbfc7b53426da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 22/94] fix: comparators given to Bunch work with python 3

---
 xboa/bunch/_bunch.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 3229daf..a8640e8 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -18,6 +18,7 @@
 import glob
 import string
 import copy
+import functools
 import gzip
 import io
 import operator
@@ -1417,9 +1418,10 @@ class Bunch:
     0.003@0.004@0.003@0.004 
     in some_file
     """
+    hits = self.__hits
     if not comparator==None:
-      self.__hits.sort(comparator)
-    for hit in self.__hits:
+      hits = sorted(hits, key=functools.cmp_to_key(comparator))
+    for hit in hits:
       hit.write_user_formatted(format_list, format_units_dict, file_handle, separator)
 
   def build_ellipse_2d(beta, alpha, emittance, p, mass, geometric):
@@ -1736,7 +1738,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for i, bunch in enumerate(list_of_bunches):
       try:
           x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
@@ -1859,7 +1861,7 @@ class Bunch:
     try:    list_of_bunches = list(bunches.values())
     except: list_of_bunches = bunches
     if comparator != None:
-      list_of_bunches.sort(comparator)
+      list_of_bunches = sorted(list_of_bunches, key=functools.cmp_to_key(comparator))
     for bunch in list_of_bunches:
       x_points.append(bunch.get(x_axis_string, x_axis_list)/Common.units[x_axis_units])
       y_points.append(bunch.get(y_axis_string, y_axis_list)/Common.units[y_axis_units])
-- 
2.43.0


From 726ff1cbc3aa43766705be9b84f30c411b4e0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 23/94] fix: the geometric argument of Bunch.get_emittance and
 the functions that use it has an effect

---
 xboa/bunch/_bunch.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index a8640e8..e5a644e 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -944,7 +944,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     gamma     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       gamma += self.moment([mom,mom], self.mean([mom]))
@@ -972,7 +972,7 @@ class Bunch:
     """
     if geometric == None: geometric = Bunch.__geometric_momentum
     alpha     = 0.0
-    emittance = self.get_emittance(axis_list)
+    emittance = self.get_emittance(axis_list, None, geometric)
     for axis in axis_list:
       mom    = self.momentum_variable(axis, geometric)
       alpha += self.moment([axis,mom], self.mean([axis, mom]))
@@ -1023,6 +1023,7 @@ class Bunch:
     ~~~~~~~~~~~~~~~
     would return the dispersion in the y-direction
     """
+    if geometric == None: geometric = Bunch.__geometric_momentum
     mom = Bunch.momentum_variable(axis, geometric)
     return self.moment([mom,'energy'])*self.mean(['energy'])['energy']/self.moment(['energy','energy'])
 
@@ -1119,14 +1120,14 @@ class Bunch:
     and |V| is the determinant.
     """
     if geometric is None: geometric = Bunch.__geometric_momentum
-    cov_list  = Bunch.axis_list_to_covariance_list(axis_list)
+    cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     my_cov    = copy.deepcopy(covariance_matrix)
     if my_cov is None:
-      my_cov = self.__cov_mat_picker(axis_list)
+      my_cov = self.__cov_mat_picker(axis_list, geometric)
       if my_cov is None: 
         my_cov = self.covariance_matrix(cov_list)
     emittance = linalg.det(my_cov)**(1./len(cov_list))
-    if not Bunch.__geometric_momentum:
+    if not geometric:
       emittance /= self.__hits[0].get('mass')
     return float(emittance)
   
@@ -1203,17 +1204,17 @@ class Bunch:
     if geometric == None: geometric = Bunch.__geometric_momentum
     cov_list  = Bunch.axis_list_to_covariance_list(axis_list, geometric)
     if mean_dict == {}:   
-      mean_dict = bunch.__mean_picker(axis_list)
+      mean_dict = bunch.__mean_picker(axis_list, geometric)
       if mean_dict == {}:
         mean_dict = bunch.mean(cov_list)
     my_vector = hit.get_vector(cov_list, mean_dict)
     my_cov    = copy.deepcopy( covariance_matrix )
     if my_cov is None:
-      my_cov = bunch.__cov_mat_picker(axis_list)
+      my_cov = bunch.__cov_mat_picker(axis_list, geometric)
       if my_cov is None:
         my_cov = bunch.covariance_matrix(cov_list)
     my_amp = my_vector*linalg.inv(my_cov)*my_vector.T
-    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov)
+    return float(my_amp[0,0])*bunch.get_emittance(axis_list, my_cov, geometric)
   get_amplitude = staticmethod(get_amplitude)
 
   def axis_list_to_covariance_list(axis_list, geometric=None):
@@ -1894,9 +1895,10 @@ class Bunch:
   def __dispersion_prime_for_get(self, variable_list):
     return self.get_dispersion_prime(variable_list[0])
 
-  def __cov_mat_picker(self, axis_list):
+  def __cov_mat_picker(self, axis_list, geometric=None):
     config.has_numpy()
     if self.__covs is None: return None
+    if geometric != None and bool(geometric) != bool(Bunch.__geometric_momentum): return None
     covs      = numpy.zeros( (2*len(axis_list),2*len(axis_list) ))
     ind = []
     for axis in axis_list:
@@ -1909,10 +1911,10 @@ class Bunch:
         covs[2*i,  2*j+1] = self.__covs[2*ind[i],   2*ind[j]+1]
     return covs
 
-  def __mean_picker(self, var_list):
+  def __mean_picker(self, var_list, geometric=None):
     if self.__means == None or self.__means == {}: return {}
     means = {}
-    all_list = Bunch.axis_list_to_covariance_list(var_list)
+    all_list = Bunch.axis_list_to_covariance_list(var_list, geometric)
     try:
       for var in all_list: means[var] = self.__means[var]
     except:
-- 
2.43.0


From 2a26f244a3b9395c386e92a632c592d1c3addfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 24/94] fix: len of a Bunchcore is its length

---
 xboa/core/pylib/PyBunchcore.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xboa/core/pylib/PyBunchcore.cc b/xboa/core/pylib/PyBunchcore.cc
index ef3a472..db18a23 100644
--- a/xboa/core/pylib/PyBunchcore.cc
+++ b/xboa/core/pylib/PyBunchcore.cc
@@ -215,6 +215,16 @@ PyObject* length(PyObject* self, PyObject *args, PyObject *kwds) {
     return py_length;
 }
 
+Py_ssize_t sequence_length(PyObject* self) {
+    Bunchcore* bc = reinterpret_cast<PyBunchcore*>(self)->bunchcore_;
+    if (bc == NULL) { // not possible! (Haha)
+        PyErr_SetString(PyExc_TypeError,
+                        "Failed to interpret self as a Bunchcore");
+        return -1;
+    }
+    return bc->length();
+}
+
 std::string moment_docstring =
     std::string("Calculate a moment.\n")+
     std::string(" - axes: list of strings that defines the axes over which\n")+
@@ -491,7 +501,7 @@ static PyMethodDef Bunchcore_methods[] = {
 };
 
 static PySequenceMethods Bunchcore_as_seq = {
-    (lenfunc)length, //lenfunc PySequenceMethods.sq_length
+    (lenfunc)sequence_length, //lenfunc PySequenceMethods.sq_length
     0, //binaryfunc PySequenceMethods.sq_concat
     0, //ssizeargfunc PySequenceMethods.sq_repeat
     0, //ssizeargfunc PySequenceMethods.sq_item
-- 
2.43.0


From 23c5319de66b5dc6c1f7a95540132c9765b45dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 25/94] fix: Bunchcore.cut_double keeps a hit alive while its
 comparator runs

---
 xboa/core/cpplib/Bunchcore.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/core/cpplib/Bunchcore.cc b/xboa/core/cpplib/Bunchcore.cc
index e022861..42d28a5 100644
--- a/xboa/core/cpplib/Bunchcore.cc
+++ b/xboa/core/cpplib/Bunchcore.cc
@@ -230,11 +230,12 @@ bool Bunchcore::cut_double(const std::string cut_variable,
         return false;
     // iterate over the hitcores, cutting
     for (size_t i = 0; i < hitcores_.size(); ++i) {
-        Hitcore* hc = hitcores_[i].get();
+        // keep the Hitcore alive; the comparator may remove it from the bunch
+        SmartPointer<Hitcore> hc = hitcores_[i];
         // ignore NULLs
-        if (hc == NULL)
+        if (hc.get() == NULL)
             continue;
-        const double value = (*hc.*function)();
+        const double value = (hc.get()->*function)();
         try {
             int comparison = comp->compare(value, cut_value);
             if (comparison == 1) {
-- 
2.43.0


From e472be95874b3e8b245f4420d12d6c957b288423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 26/94] fix: Bunch.set_covariance_matrix recalculates when it
 is already on

---
 xboa/bunch/_bunch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index e5a644e..8ac9a40 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -784,6 +784,9 @@ class Bunch:
 
     As a speed optimisation, x-boa can calculate a covariance matrix and use this for all calculations involving covariances, i.e. Twiss parameters, emittances, amplitudes etc. Otherwise x-boa will re-calculate this each time, which can be slow. Be careful though - x-boa does not automatically detect for hits being added or removed from the bunch, etc. The user must call this function each time the bunch changes (events added, weightings changed, etc) to update the internal covariance matrix
     """
+    # otherwise the recalculation would use the old internal covariances and means
+    self.__covs  = None
+    self.__means = {}
     if use_internal_covariance_matrix:
       if covariance_matrix is None:
         self.__covs = self.covariance_matrix(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
@@ -791,9 +794,6 @@ class Bunch:
       if mean_dict == {}:
         self.__means = self.mean(Bunch.axis_list_to_covariance_list(Bunch.__axis_list))
       else: self.__means = mean_dict
-    else:
-      self.__covs  = None
-      self.__means = {}
 
   def covariances_set(self):
     """If internal covariances are set by set_covariance_matrix, return True; else return False"""
-- 
2.43.0


From 42d112523ce2d60c0e59e75dc11eda0f8ab8a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 27/94] fix: Bunch.histogram chooses the number of bins of a 2D
 histogram

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8ac9a40..2075b1d 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1550,7 +1550,7 @@ class Bunch:
       (nx_bins, ny_bins, dummy) = Common.n_bins(len(x_points), nx_bins, 1)
     else:
       y_points                  = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
-      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, 2)
+      (nx_bins, ny_bins, dummy) = Common.n_bins(len(y_points), nx_bins, ny_bins, n_dimensions=2)
       y_bins                    = Common.get_bin_edges(y_points, ny_bins, ymin, ymax)
     x_bins = Common.get_bin_edges(x_points, nx_bins, xmin, xmax)
     return self.histogram_var_bins(x_axis_string, x_bins, x_axis_units, y_axis_string, y_bins, y_axis_units)
-- 
2.43.0


From 79108591c31d5f147d0cf62ca9158cb97b136ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 28/94] fix: min_max ignores a weight list of another length

---
 xboa/common/_common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index fd20185..90cffa0 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -264,9 +264,9 @@ def min_max(x_float_list, weight_list=[], margin = 0.1, xmin=None, xmax=None):
   new_floats = x_float_list
   if len(weight_list) == len(x_float_list):
     new_floats =  []
-  for ind in range(len(weight_list)):
-    if weight_list[ind] > 1e-6:
-      new_floats.append(x_float_list[ind]) 
+    for ind in range(len(weight_list)):
+      if weight_list[ind] > 1e-6:
+        new_floats.append(x_float_list[ind]) 
   if len(new_floats) == 0: x = [0.,0.]
   else:                      x = [min(new_floats), max(new_floats)]
   delta = (x[1]-x[0])*margin
-- 
2.43.0


From 23375f170fffecd8bd5cc94d66d45f479f7a16ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 29/94] fix: fit_ellipse cut uses the dimension of the points

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 90cffa0..864f4fe 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -975,7 +975,7 @@ def _get_fit_ellipse_covariance_matrix(points, weights, in_cut):
 
 def _update_fit_ellipse_cut(points, cov_inv, mean, eps_cut):
     n_points = len(points)
-    n_dim = 2
+    n_dim = len(mean)
     in_cut = [True for i in range(n_points)]
     sqrt_det_inv = numpy.linalg.det(cov_inv)**(1./float(n_dim))
     for i in range(n_points):
-- 
2.43.0


From 8ad7aed555697cf65ec22f8c7107dc92e1df02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 30/94] fix: make_matplot_scatter labels the y axis

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 864f4fe..378644b 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -720,7 +720,7 @@ def make_matplot_scatter(x_float_list, x_axis_string, y_float_list, y_axis_strin
     raise IndexError('Attempt to draw histogram with no x-points')
   hist = pyplot.scatter(x_float_list, y_float_list, s=1)
   pyplot.xlabel(x_axis_string)
-  pyplot.ylabel(x_axis_string)
+  pyplot.ylabel(y_axis_string)
   return hist
 
 def wait_for_root():
-- 
2.43.0


From d056321dbde10474b356841364374b9f2867d6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 31/94] fix: Bunch.matplot_scatter_graph returns its figure

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2075b1d..9acff4f 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1836,8 +1836,8 @@ class Bunch:
         y_points.append(self.get_hit_variable(hit, y_axis_string)/Common.units[y_axis_units])
     if not x_axis_units == '': x_axis_string += " ["+x_axis_units+"] "
     if not y_axis_units == '': y_axis_string += " ["+y_axis_units+"] "
-    graph = Common.make_matplot_scatter(x_points, x_axis_string, y_points, y_axis_string)
-    return matplotlib.pyplot.figure(graph)
+    Common.make_matplot_scatter(x_points, x_axis_string, y_points, y_axis_string)
+    return matplotlib.pyplot.gcf()
 
   def matplot_graph(bunches, x_axis_string, x_axis_list, y_axis_string, y_axis_list, x_axis_units='', y_axis_units='', comparator=None):
     """
-- 
2.43.0


From e8f3ef25e997270f989836731eed484faddf4fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 32/94] fix: matplot histograms show the last bin

---
 xboa/common/_common.py            | 4 ++--
 xboa/common/matplotlib_wrapper.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 378644b..52f79de 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -548,8 +548,8 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     new_bins  = []
     new_n     = []
     index     = 0
-    while(abs(n[index])<1.e-9 and index < len(n)): index += 1
-    for i in range(index, len(n)-1):
+    while(index < len(n) and abs(n[index])<1.e-9): index += 1
+    for i in range(index, len(n)):
       new_bins.append((my_bins[i] + my_bins[i+1])/2.)
       new_n.append(n[i])
     hist = pyplot.plot(new_bins, new_n)
diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index df4bf0c..d52fe05 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -60,9 +60,9 @@ def make_histogram(x_float_list, x_axis_string, n_x_bins,
         new_bins  = []
         new_n     = []
         index     = 0
-        while(abs(n[index])<1.e-9 and index < len(n)):
+        while(index < len(n) and abs(n[index])<1.e-9):
             index += 1
-        for i in range(index, len(n)-1):
+        for i in range(index, len(n)):
             new_bins.append((my_bins[i] + my_bins[i+1])/2.)
             new_n.append(n[i])
         hist = pyplot.plot(new_bins, new_n)
-- 
2.43.0


From 7ee261c6c3513da5d4da5d0d964d15bbcaf2e110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 33/94] fix: matplotlib_wrapper.make_multigraph works

---
 xboa/common/matplotlib_wrapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index d52fe05..45e8d6d 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -151,9 +151,10 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
     for a_list in x_float_list_of_lists:
         total_x_list += a_list
     for a_list in y_float_list_of_lists:  total_y_list += a_list
-    x_min_max = min_max(total_x_list, margin=rg.graph_margin)
-    y_min_max = min_max(total_y_list, margin=rg.graph_margin)
+    x_min_max = xboa.common.min_max(total_x_list)
+    y_min_max = xboa.common.min_max(total_y_list)
     for index in range( len(x_float_list_of_lists) ):
+        kwd_args = {}
         if index < len(kwds):
             kwd_args = kwds[index]
         multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
-- 
2.43.0


From 0200e521298badf14e6094a2b462c16f252697e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 34/94] fix: spill and global_weight could not be read or
 written in user formats

---
 xboa/hit/_hit.py                       | 2 +-
 xboa/hit/factory/_line_factory_base.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 44bb185..7666b68 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -826,7 +826,7 @@ class Hit(object):
                            'l_kin':get_l_kin,'':__do_nothing}
   __set_variables        = {'p':set_p,'x\'':set_xP,'y\'':set_yP,'t\'':set_tP,'ct':set_ct,'kinetic_energy':set_ek,'':__do_nothing}
   _default_var_types    = {'x':float,'y':float,'z':float,'t':float,'px':float,'py':float,'pz':float,'energy':float,'bx':float,'by':float,'bz':float,
-                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'pid':int,'status':int,'station':int,'local_weight':float,
+                            'ex':float,'ey':float,'ez':float,'eventNumber':int, 'event_number':int, 'particleNumber':int, 'particle_number':int, 'spill':int, 'pid':int,'status':int,'station':int,'local_weight':float, 'global_weight':float,
                             'sx':float,'sy':float,'sz':float,'mass':float,'path_length':float,'proper_time':float,'e_dep':float, 'charge':float}
 
   __get_keys = []
diff --git a/xboa/hit/factory/_line_factory_base.py b/xboa/hit/factory/_line_factory_base.py
index 5c507c9..23c2e31 100644
--- a/xboa/hit/factory/_line_factory_base.py
+++ b/xboa/hit/factory/_line_factory_base.py
@@ -53,6 +53,7 @@ class LineFactoryBase(HitFactoryBase):
         if not(len(words) == len(format_list)): 
             raise xboa.hit.BadEventError("Read operation failed with line "+str(line))
         a_hit = xboa.hit.Hit()
+        global_weight = None
         for key in format_list:
             value = words.pop()
             if key != '':
@@ -65,6 +66,12 @@ class LineFactoryBase(HitFactoryBase):
                     value = xboa.hit.Hit._default_var_types[key](value)
                 if xboa.hit.Hit._default_var_types[key] == float:
                     value *= common.units[format_units_dict[key]]
-                a_hit.set(key, value)
+                if key == 'global_weight':
+                    global_weight = value
+                else:
+                    a_hit.set(key, value)
+        # global_weight belongs to (spill, event_number, particle_number): set it last
+        if global_weight is not None:
+            a_hit.set('global_weight', global_weight)
         return a_hit
 
-- 
2.43.0


From 6265cace1c18bdb1ad4b24d714c0110631c5e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 35/94] fix: clear_root forgets the graphs

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 52f79de..d867b04 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -747,7 +747,7 @@ def clear_root():
   for graph in _graph_persistent:  del(graph)
   _canvas_persistent = []
   _hist_persistent = []
-  _canvas_persistent = []
+  _graph_persistent = []
 
 def wait_for_matplot():
   """Show any plots made using matplotlib on the screen"""
-- 
2.43.0


From be425f0b97e916e3e4e43e85219cec73db4724b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 36/94] fix: make_root_histogram sets the line width

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index d867b04..f8fda0a 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -440,6 +440,7 @@ def make_root_histogram(name_string, x_float_list, x_axis_string, n_x_bins, y_fl
   _hist_persistent.append(hist)
   hist.SetLineColor(line_color)
   hist.SetLineStyle(line_style)
+  hist.SetLineWidth(line_width)
   if fill_color!=None: hist.SetFillColor(fill_color)
   hist.SetStats(stats)
   return hist
-- 
2.43.0


From 7149db5a6823b2391b14ee38b04f78a0c1da0026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 37/94] fix: error of plot_hist2d_ratio for rows of different
 length

---
 xboa/common/matplotlib_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index 45e8d6d..850693c 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -219,7 +219,7 @@ def plot_hist2d_ratio(axes, h1, h2, xedges, yedges, on_nan=0.0, hist_args={}):
         raise ValueError(f"h1 and h2 have different number of rows: {len(h1)} != {len(h2)}")
     for i, item in enumerate(h1):
         if len(h1[i]) != len(h2[i]):
-            raise ValueError(f"Row {i} had wrong number of columns: {len(h1[i]) != {len(h2[i])}}")
+            raise ValueError(f"Row {i} had wrong number of columns: {len(h1[i])} != {len(h2[i])}")
     h1 = numpy.array(h1).transpose().flatten()
     h2 = numpy.array(h2).transpose().flatten()
     nan_index = []
-- 
2.43.0


From ac55fd47bd8b9556ae85b7001edb68efbb811ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 38/94] fix: matplot graphs leave the lists they are given as
 they were

---
 xboa/common/_common.py            | 5 +++--
 xboa/common/matplotlib_wrapper.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index f8fda0a..1420a80 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -627,8 +627,9 @@ def make_matplot_graph(x_float_list, x_axis_string, y_float_list, y_axis_string,
   pyplot.figure(figure_index)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
+  x_float_list, y_float_list = list(x_float_list), list(y_float_list)
   multilist = [x_float_list, y_float_list]
-  multisort(multilist)
+  if sort: multisort(multilist)
   x_min_max = min_max(multilist[0], margin=rg.graph_margin)
   y_min_max = min_max(multilist[1], margin=rg.graph_margin)
   myplot = pyplot.plot(x_float_list, y_float_list)
@@ -693,7 +694,7 @@ def make_matplot_multigraph(x_float_list_of_lists, x_axis_string, y_float_list_o
   x_min_max = min_max(total_x_list, margin=rg.graph_margin)
   y_min_max = min_max(total_y_list, margin=rg.graph_margin)
   for index in range( len(x_float_list_of_lists) ):
-    multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+    multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
     multisort(multilist)
     myplot = pyplot.plot(multilist[0], multilist[1])
   pyplot.xlabel(x_axis_string)
diff --git a/xboa/common/matplotlib_wrapper.py b/xboa/common/matplotlib_wrapper.py
index 850693c..d8e5a91 100644
--- a/xboa/common/matplotlib_wrapper.py
+++ b/xboa/common/matplotlib_wrapper.py
@@ -108,6 +108,7 @@ def make_graph(x_float_list, x_axis_string,
               (len(x_float_list), len(y_float_list))
         msg += "They should be the same length, with at least 1 element."
         raise IndexError(msg)
+    x_float_list, y_float_list = list(x_float_list), list(y_float_list)
     multilist = [x_float_list, y_float_list]
     if sort:
         xboa.common.multisort(multilist)
@@ -157,7 +158,7 @@ def make_multigraph(x_float_list_of_lists, x_axis_string,
         kwd_args = {}
         if index < len(kwds):
             kwd_args = kwds[index]
-        multilist = [x_float_list_of_lists[index], y_float_list_of_lists[index]]
+        multilist = [list(x_float_list_of_lists[index]), list(y_float_list_of_lists[index])]
         xboa.common.multisort(multilist)
         myplot = pyplot.plot(multilist[0], multilist[1], **kwd_args)
     pyplot.xlabel(x_axis_string)
-- 
2.43.0


From 1a67b69389b9100f5bf47c4708c5400e4a094474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 39/94] fix: Bunch.root_histogram plots the y variable whatever
 the draw option

---
 xboa/bunch/_bunch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 9acff4f..8910c1f 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1614,8 +1614,8 @@ class Bunch:
     x_points = self.list_get_hit_variable([x_axis_string], [x_axis_units])[0]
     if y_axis_string == '' and nx_bins==None:
       nx_bins = int(num_events/10.)
-    if not y_axis_string == '' and draw_option=='': 
-      draw_option = 'COL'
+    if not y_axis_string == '':
+      if draw_option == '': draw_option = 'COL'
       y_points = self.list_get_hit_variable([y_axis_string], [y_axis_units])[0]
       if nx_bins == None: nx_bins = int(num_events**0.7/10.)
       if ny_bins == None: ny_bins = int(num_events**0.7/10.)
-- 
2.43.0


From f120772fe97cdcba50200a3cc1f02d88f784f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 40/94] fix: Bunch.matplot_graph keeps the order its comparator
 made

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 8910c1f..2b85b52 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -1874,7 +1874,7 @@ class Bunch:
     y_axis_string += ") "
     if not x_axis_units == '': x_axis_string += " ["+x_axis_units+"] "
     if not y_axis_units == '': y_axis_string += " ["+y_axis_units+"] "
-    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string)
+    graph = Common.make_matplot_graph(x_points, x_axis_string, y_points, y_axis_string, comparator==None)
     return matplotlib.pyplot.figure(graph)
   matplot_graph = staticmethod(matplot_graph)
 
-- 
2.43.0


From aff240da13e937f8bdf05e308850e9345a7687e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 41/94] fix: subprocesses are killed at exit before
 multiprocessing waits for them

---
 xboa/common/_common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 1420a80..7a805d3 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -55,6 +55,7 @@ except ImportError:
     pass
 try:
     import multiprocessing
+    import multiprocessing.util # registers an exit handler; the one below has to run before it
 except ImportError:
     pass
 
-- 
2.43.0


From 930a4400ad9a1787abb5e313b5a21ac09a745e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:49 +0000
Subject: [PATCH 42/94] fix: weighted 2D matplot histograms show the sum of the
 weights, not their mean

---
 xboa/common/_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 7a805d3..9fffc10 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -557,7 +557,7 @@ def make_matplot_histogram(x_float_list, x_axis_string, n_x_bins, y_float_list=[
     hist = pyplot.plot(new_bins, new_n)
     pyplot.xlabel(x_axis_string)
   else:
-    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins))
+    if len(weight_list) == len(x_float_list): hist = pyplot.hexbin(x_float_list, y_float_list, weight_list, gridsize=(n_x_bins,n_y_bins), reduce_C_function=numpy.sum)
     else:                                     hist = pyplot.hexbin(x_float_list, y_float_list, gridsize=(n_x_bins,n_y_bins))
     pyplot.xlabel(x_axis_string)
     pyplot.ylabel(y_axis_string)
-- 
2.43.0


From 67922ce6ebba62ecde5178c3050184bdb1228180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 43/94] fix: make_root_graph takes any sequence, for example a
 range

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 9fffc10..b18503c 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -587,8 +587,8 @@ def make_root_graph(name_string, x_float_list, x_axis_string, y_float_list, y_ax
   Return value is a tuple of (histogram, graph)
   """
   config.has_root()
-  x_float_list = copy.deepcopy(x_float_list)
-  y_float_list = copy.deepcopy(y_float_list)
+  x_float_list = list(x_float_list)
+  y_float_list = list(y_float_list)
   if(len(x_float_list) == 0 or len(x_float_list) != len(y_float_list)):
     raise IndexError('Attempt to draw graph with no x-points, or different number of x to y points')
 #  name_string += " "+str(len(_hist_persistent))
-- 
2.43.0


From a3f9dc5b78d355c3c19e9ff81847c7b385e850b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 44/94] fix: RefinePeakFinder works with python 3

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ed74369..ede7418 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -133,7 +133,7 @@ class RefinePeakFinder(object):
                     fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
                 except Exception:
                     break
-            delta_fit /= 2
+            delta_fit //= 2
             fit_quality, hist, graph, fit = self._peak_fit(data, peak, delta_fit, self.delta_seed)
             if self.draw:
                 canvas = common.make_root_canvas("values")
-- 
2.43.0


From 50bb1926cdb2f47f04a590406c0d98ee7d711ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 45/94] fix: RefinePeakFinder starts the search for the best
 range afresh for each peak

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index ede7418..102e876 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -123,9 +123,9 @@ class RefinePeakFinder(object):
         # chi2 gives estimate of fit errors
         this_max_delta = min(len(data), self.max_delta)
         peak_with_errors = []
-        fit_quality = 0.
         fail_list = []
         for peak in self.peak_list:
+            fit_quality = 0.
             delta_fit = self.delta_seed
             while fit_quality < 1. and delta_fit < this_max_delta:
                 delta_fit *= 2
-- 
2.43.0


From 1f2efa392f9c958c3d0ec8727e437ef9283823a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 46/94] fix: CutSmoothing works with python 3

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 83354d6..615fab7 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -72,13 +72,13 @@ class CutSmoothing(object):
                                  " not equal to "+str(n_signal))
         will_cut_data = [False]*n_signal
 
-        for i in range(n_signal/self.step):
+        for i in range(n_signal//self.step):
             data_mean = numpy.mean(signal[i*self.step:(i+1)*self.step])
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
-        for j in range((n_signal/self.step)*self.step, n_signal):
+        for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
         table_out = copy.deepcopy(table)
-- 
2.43.0


From 6b4fa7d5a146014b1f0bf52a64462f16460afe78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 47/94] fix: CutSmoothing uses all the data when it is shorter
 than a step

---
 xboa/algorithms/smoothing/_cut_smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_cut_smoothing.py b/xboa/algorithms/smoothing/_cut_smoothing.py
index 615fab7..b531efb 100644
--- a/xboa/algorithms/smoothing/_cut_smoothing.py
+++ b/xboa/algorithms/smoothing/_cut_smoothing.py
@@ -77,7 +77,7 @@ class CutSmoothing(object):
             for j in range(i*self.step, (i+1)*self.step):
                 will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-        data_mean = numpy.mean(signal[n_signal-self.step:n_signal])
+        data_mean = numpy.mean(signal[max(n_signal-self.step, 0):n_signal])
         for j in range((n_signal//self.step)*self.step, n_signal):
             will_cut_data[j] = abs(signal[j]-data_mean) > self.cut_range
 
-- 
2.43.0


From 96a7b2e3efcea67f0b8ad178ff935e6a169c772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 48/94] fix: DPhiTuneFinder.get_tune forgets the phase advances
 of earlier calls

---
 xboa/algorithms/tune/_dphi_tune.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xboa/algorithms/tune/_dphi_tune.py b/xboa/algorithms/tune/_dphi_tune.py
index d449e4b..c991a11 100644
--- a/xboa/algorithms/tune/_dphi_tune.py
+++ b/xboa/algorithms/tune/_dphi_tune.py
@@ -70,6 +70,7 @@ class DPhiTuneFinder(object):
         points = zip(self.u, self.up)
         plot_x, plot_y = [], []
         self.point_circles = []
+        self.dphi = []
         for point in points:
             point_array = numpy.array([point[0]-self.centre[0],
                                     point[1]-self.centre[1]])
-- 
2.43.0


From a0139b7a3eada7cbce4cdf51a87d6cf1988dab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 49/94] fix: frequencies of FFTTuneFinder are multiples of 1/n
 for n points

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 2198b44..d7b9a57 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -252,7 +252,7 @@ class FFTTuneFinder(object):
         fft = numpy.fft.rfft(numpy.array(self.u))
         k_list = [[float(numpy.real(z)), float(numpy.imag(z))] for z in fft]
         self.k_mag_y = [(z[0]**2+z[1]**2)**0.5 for z in k_list]
-        self.k_mag_x = [i/2./float(len(k_list)) for i, z in enumerate(k_list)]
+        self.k_mag_x = [i/float(len(self.u)) for i, z in enumerate(k_list)]
         self._find_peaks()
 
     def _find_peaks(self):
@@ -336,7 +336,7 @@ class FFTTuneFinder(object):
         for m, a_m in enumerate(self.u):
             if self.use_hanning_filter:
                 hanning = 2.*math.sin(math.pi*m/n)**2.
-            f = 2.*math.pi*m*k_x*(n+1)/n
+            f = 2.*math.pi*m*k_x
             dy = hanning*a_m*math.cos(f)
             dz = hanning*a_m*math.sin(f)
             y_point += dy
-- 
2.43.0


From 5fb1282e617cc82a9363947dd025ae1f1c0f61c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 50/94] fix: RefinePeakFinder judges the fit on data about the
 peak, also near the first point

---
 xboa/algorithms/peak_finder/_refine_peak_finder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/peak_finder/_refine_peak_finder.py b/xboa/algorithms/peak_finder/_refine_peak_finder.py
index 102e876..4475979 100644
--- a/xboa/algorithms/peak_finder/_refine_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_refine_peak_finder.py
@@ -107,7 +107,8 @@ class RefinePeakFinder(object):
         graph.Fit(fit, 'QNO')
         delta_list = [y_list[i]-fit.Eval(x) for i, x in enumerate(x_list)]
         sigma_delta = self.sigma(delta_list)
-        sigma_bite = self.sigma(y_list[delta_fit-delta_bite:delta_fit+delta_bite])
+        centre = peak_index-x_min
+        sigma_bite = self.sigma(y_list[max(centre-delta_bite, 0):centre+delta_bite])
         # fit_quality = (s(residual)/s(data)-1.)*sqrt(n)
         # where n is the number in the s(data) calculation
         fit_quality = (sigma_delta/sigma_bite-1.)*delta_bite**0.5
-- 
2.43.0


From d344120cdc9789ada262b949bd5cf20cdf802bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 51/94] fix: FFTTuneFinder does not remove the last element of
 the lists of the caller

---
 xboa/algorithms/tune/_fft_tune.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index d7b9a57..1ea88c4 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -82,8 +82,8 @@ class FFTTuneFinder(object):
             raise ValueError("No data set for Fourier Transform")
         if len(self.u) % 2 == 0:
             if self.up != None:
-                del self.up[-1]
-            del self.u[-1]
+                self.up = self.up[:-1]
+            self.u = self.u[:-1]
         if tune_tolerance == None:
             tune_tolerance = 1./len(self.u)/100.
         self._fft_find_peaks()
-- 
2.43.0


From 5de91d5c8fc52c41ad01dcd61c670531be09fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:15 +0000
Subject: [PATCH 52/94] fix: FFTTuneFinder does not wrap round to the highest
 frequency when it refines a peak next to 0

---
 xboa/algorithms/tune/_fft_tune.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index 1ea88c4..e9f07e6 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -283,6 +283,8 @@ class FFTTuneFinder(object):
         peak_index = self.k_mag_x.index(k_x)
         if peak_index+1 == len(self.k_mag_y):
             peak_index -= 1
+        elif peak_index == 0:
+            peak_index += 1
         y_values = [self.k_mag_y[peak_index-1],
                     self.k_mag_y[peak_index],
                     self.k_mag_y[peak_index+1]]
-- 
2.43.0


From d8e3d00e41f2bc6bbff5d815f163712e66e1c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 53/94] fix: generators of EllipseClosedOrbitFinder end by
 returning; raising StopIteration is an error

---
 .../closed_orbit/_ellipse_closed_orbit_finder.py     | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 7064b72..90ef2f3 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -74,7 +74,7 @@ class EllipseClosedOrbitFinder(object):
         while True:
             for key in keys:
                 if step[key] >= step_end_dict[key]:
-                    raise StopIteration("Run out of steps at "+json.dumps(step))
+                    return # run out of steps
                 next_hit[key] = step[key]
             hit_list = self.tracking.track_one(next_hit)
             x_list = [[hit[key] for key in keys] for hit in hit_list]
@@ -128,20 +128,16 @@ class EllipseClosedOrbitFinder(object):
                                                           self.eps_max, True)
             except  (numpy.linalg.linalg.LinAlgError, ValueError):
                 if len(x_list) > number_of_points:
-                    raise StopIteration("Closed orbit has reached numerical "+\
-                                        "precision limit. Nice!")
+                    return # reached numerical precision limit. Nice!
                 else:
                     raise ValueError("Failed to find ellipse determinant.")
 
             yield my_co
             if my_co.get_mean_noise() < my_co.get_sigma_noise():
-                raise StopIteration("Closed orbit finder has reached "+\
-                                    "convergence limit. Tracking noise is "+\
-                                    "greater than ellipse size.")
+                return # tracking noise is greater than ellipse size
             for i, var in enumerate(keys):
                 next_hit[var] = my_co.centre[i]
-        raise StopIteration("Closed orbit finder has finished iterating without converging.")
- 
+
 
     def check_closed_orbit(self, test_variable_dict, number_of_points):
         """
-- 
2.43.0


From 8c437d7c40276a2526fd341852e3f0bee00c2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 54/94] fix: find_closed_orbit_generator works with
 max_iterations None

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 90ef2f3..5454b39 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -120,7 +120,7 @@ class EllipseClosedOrbitFinder(object):
         next_hit = self.seed.deepcopy()
         noise_mean = None
         iteration = 0
-        while iteration < max_iterations or max_iterations == None:
+        while max_iterations == None or iteration < max_iterations:
             iteration += 1
             x_list = self._get_points(keys, next_hit, number_of_points)
             try:
-- 
2.43.0


From f909a047be3b97a41d2545eaafc83c21a638b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 55/94] fix: scan_generator goes on when a step lands on the
 end of the scan

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 5454b39..9f54b16 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -84,7 +84,7 @@ class EllipseClosedOrbitFinder(object):
             i = len(keys)-1
             key = keys[i]
             step[key] += step_size_dict[key]
-            while step[key] > step_end_dict[key] and i > 0:
+            while step[key] >= step_end_dict[key] and i > 0:
                 step[key] = step_start_dict[key]
                 i -= 1
                 key = keys[i]
-- 
2.43.0


From 11f64280e28e932ed613276c46ed03b2f3711a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 56/94] fix: closed orbit finder raises RuntimeError when
 tracking gives no new hits

---
 xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 9f54b16..9597ea0 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -173,8 +173,9 @@ class EllipseClosedOrbitFinder(object):
         if self.use_seed:
             hit_list.append(next_hit)
         while len(hit_list) < number_of_points:
-            hit_list += self.tracking.track_one(next_hit)[1:]
-            if hit_list[-1] == next_hit:
+            hits_out = self.tracking.track_one(next_hit)[1:]
+            hit_list += hits_out
+            if len(hits_out) == 0 or hit_list[-1] == next_hit:
                 raise RuntimeError("Tracking failed to generate an ellipse")
             next_hit = hit_list[-1]
         x_list = [[hit[var] for var in keys] for hit in hit_list]
-- 
2.43.0


From 52f01dfef7f6334b580269a5aa783d8e5c185f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 57/94] fix: closed orbit plots divide by the units and scale
 the ellipse too

---
 .../_ellipse_closed_orbit_finder.py            | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
index 9597ea0..fdeaaa4 100644
--- a/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
+++ b/xboa/algorithms/closed_orbit/_ellipse_closed_orbit_finder.py
@@ -287,9 +287,11 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_root()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_unit = common.units[x_axis_units]
+        x_list = [x[x_var]/x_unit for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_unit = common.units[y_axis_units]
+        y_list = [x[y_var]/y_unit for x in self.points]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
@@ -308,10 +310,12 @@ class EllipseClosedOrbitFinderIteration(object):
         graph.Draw('p')
         ellipse = None
         if type(self.centre) != type(None):
-            ell_centre = [self.centre[x_var], self.centre[y_var]]
+            ell_centre = [self.centre[x_var]/x_unit, self.centre[y_var]/y_unit]
             ell_matrix = [
-                [self.ellipse[x_var, x_var], self.ellipse[x_var, y_var]],
-                [self.ellipse[x_var, y_var], self.ellipse[y_var, y_var]]
+                [self.ellipse[x_var, x_var]/x_unit/x_unit,
+                 self.ellipse[x_var, y_var]/x_unit/y_unit],
+                [self.ellipse[x_var, y_var]/x_unit/y_unit,
+                 self.ellipse[y_var, y_var]/y_unit/y_unit]
             ]
             ell_matrix = numpy.array(ell_matrix)
             contours = [self.get_mean_noise()]
@@ -344,9 +348,9 @@ class EllipseClosedOrbitFinderIteration(object):
         """
         config.has_matplotlib()
         x_var = self.keys.index(x_axis_string)
-        x_list = [x[x_var]*common.units[x_axis_units] for x in self.points]
+        x_list = [x[x_var]/common.units[x_axis_units] for x in self.points]
         y_var = self.keys.index(y_axis_string)
-        y_list = [x[y_var]*common.units[y_axis_units] for x in self.points]
+        y_list = [x[y_var]/common.units[y_axis_units] for x in self.points]
         if x_axis_units != '':
             x_axis_string += ' ['+x_axis_units+']'
         if y_axis_units != '':
-- 
2.43.0


From 3d5c5d175046eee14a92e6c151f6e5a13493c7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 58/94] fix: DecoupledTransferMatrix works with python 3 and
 refuses matrices of odd size

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 8fd19eb..f5ba594 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -25,14 +25,14 @@ class DecoupledTransferMatrix(object):
         self.m = numpy.array(transfer_matrix)
         if self.m.shape[0] != self.m.shape[1]:
             raise ValueError("Transfer matrix was not square")
-        if (self.m.shape[0]/2)*2 != self.m.shape[0]:
+        if (self.m.shape[0]//2)*2 != self.m.shape[0]:
             raise ValueError("Transfer matrix had odd size (should be even)")
         det_m = numpy.linalg.det(self.m)
         if abs(det_m - 1) > self.det_tolerance:
             raise ValueError("Transfer matrix determinant deviated from 1 by "+\
               str(det_m - 1)+" - DecoupledTransferMatrix.det_tolerance was "+\
               str(self.det_tolerance) )
-        self.dim = self.m.shape[0]/2
+        self.dim = self.m.shape[0]//2
         self.m_evalue, self.m_evector = numpy.linalg.eig(self.m)
         self.t_evector = None
         self.t_evalue = None
-- 
2.43.0


From 5565a5162627424c3524489ff85fb750da89b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 59/94] fix: DecoupledTransferMatrix takes the eigenvector of
 each axis, not of each half axis

---
 xboa/algorithms/decoupled_transfer_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index f5ba594..6bcf759 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -52,7 +52,7 @@ class DecoupledTransferMatrix(object):
         self.v_t = numpy.zeros([self.dim*2, self.dim*2]) # real
         for i in range(self.dim):
             j = 2*i
-            evector = numpy.transpose(self.m_evector)[i]
+            evector = numpy.transpose(self.m_evector)[j]
             phi_i = numpy.angle(evector[j])
             exp_phi_i = numpy.exp(1j*phi_i)
             try:
-- 
2.43.0


From 8c9fd6e4d404b04fc28c9d17757eec1325886b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 60/94] fix: ellipses of DecoupledTransferMatrix.get_v_m have
 the eigen emittances asked for

---
 xboa/algorithms/decoupled_transfer_matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index 6bcf759..c5ee45d 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -62,6 +62,10 @@ class DecoupledTransferMatrix(object):
             except FloatingPointError:
                 beta_i = -1.
                 alpha_i = 0.
+            # normalise like the eigenvectors of t so that r keeps emittances
+            norm = sum(numpy.imag(numpy.conj(evector[0::2])*evector[1::2]))
+            if norm != 0.:
+                self.m_evector[:, j:j+2] /= abs(norm)**0.5
             phase_i = numpy.angle(self.m_evalue[j])
             self.t_evector[j,   j] = cmath.sqrt(beta_i)*exp_phi_i
             self.t_evector[j+1, j] = 1./cmath.sqrt(beta_i)*(-alpha_i+1j)*exp_phi_i
-- 
2.43.0


From 5f9cc4fdfdc0a19fafbc03f35461e7849d1d9f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 61/94] fix: tracking processes open their pickle files in
 binary mode

---
 xboa/tracking/tracking_process/_bsub_process.py         | 2 +-
 xboa/tracking/tracking_process/_tracking_process.py     | 6 +++---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index eb455ae..90c0e24 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -46,7 +46,7 @@ class BSubProcess(TrackingProcess):
         self.queue = queue
         self.job_time = job_time
         out_path = os.path.join(self.out_dir, self.pickle_jar)
-        process_out = open(out_path, "w")
+        process_out = open(out_path, "wb")
         pickle.dump(self, process_out)
         process_out.close()
 
diff --git a/xboa/tracking/tracking_process/_tracking_process.py b/xboa/tracking/tracking_process/_tracking_process.py
index cde9ce5..ec62150 100644
--- a/xboa/tracking/tracking_process/_tracking_process.py
+++ b/xboa/tracking/tracking_process/_tracking_process.py
@@ -69,7 +69,7 @@ class TrackingProcess(object):
         Set the hit list over which the TrackingProcess should run
         """
         self.hit_list = hit_list
-        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "w")
+        process_out = open(os.path.join(self.out_dir, self.pickle_jar), "wb")
         pickle.dump(self, process_out)
 
     def start(self):
@@ -139,7 +139,7 @@ class TrackingProcess(object):
         if not os.path.exists(return_path):
             raise RuntimeError("The TrackingProcess finished without leaving "+\
                                "a return value")
-        fin = open(return_path)
+        fin = open(return_path, "rb")
         self.return_value = pickle.load(fin)
         return self.return_value
 
@@ -149,7 +149,7 @@ class TrackingProcess(object):
         Instantiate a TrackingProcess from pickle directory
         - pickle_dir: directory where pickled data is stored.
         """
-        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "r")
+        fin = open(os.path.join(pickle_dir, cls.pickle_jar), "rb")
         process = pickle.load(fin)
         return process
 
diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index 494b9e4..fb6ddb5 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -40,14 +40,14 @@ def main():
     """Run the TrackingProcess"""
     args = parse_args()
     out_dir = args.out_dir 
-    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar))
+    fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb")
     tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
     if os.path.exists(TrackingProcess.pickle_sandwich):
         os.remove(TrackingProcess.pickle_sandwich)
     # run the data and dump the output
     hits = tracking_process.run()
-    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "w")
+    fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb")
     pickle.dump(hits, fout)
 
 if __name__ == "__main__":
-- 
2.43.0


From 6e95bdf9729bb33c0014c1488a37b2825f716240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 62/94] fix: a tracking process clears old results in its own
 directory, not in the working directory

---
 xboa/tracking/tracking_process/xboa_tracking_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xboa/tracking/tracking_process/xboa_tracking_process.py b/xboa/tracking/tracking_process/xboa_tracking_process.py
index fb6ddb5..92fbff1 100755
--- a/xboa/tracking/tracking_process/xboa_tracking_process.py
+++ b/xboa/tracking/tracking_process/xboa_tracking_process.py
@@ -43,8 +43,9 @@ def main():
     fin = open(os.path.join(out_dir, TrackingProcess.pickle_jar), "rb")
     tracking_process = pickle.load(fin)
     # clear any old data; always want to get new data
-    if os.path.exists(TrackingProcess.pickle_sandwich):
-        os.remove(TrackingProcess.pickle_sandwich)
+    out_file = os.path.join(out_dir, TrackingProcess.pickle_sandwich)
+    if os.path.exists(out_file):
+        os.remove(out_file)
     # run the data and dump the output
     hits = tracking_process.run()
     fout = open(os.path.join(out_dir, TrackingProcess.pickle_sandwich), "wb")
-- 
2.43.0


From 0747c7d8b5d682943486f2646dae1a997261b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 63/94] fix: MultiTrack divides the hits with python 3

---
 xboa/tracking/_multitrack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index db7b933..6f35826 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -65,7 +65,7 @@ class MultiTrack(TrackingBase):
         self.job_list = []
         self.last = []
         n_hits = len(hit_list)
-        n_hits_per_process = n_hits/int(self.n_processes)
+        n_hits_per_process = n_hits//int(self.n_processes)
         remainder = n_hits % int(self.n_processes)
         
         for i in range(self.n_processes):
-- 
2.43.0


From 47216afbfb7c542f761d7f679376ad6f7854ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 64/94] fix: MultiTrack.track_one tracks the hit and returns
 the result

---
 xboa/tracking/_multitrack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/tracking/_multitrack.py b/xboa/tracking/_multitrack.py
index 6f35826..269571b 100644
--- a/xboa/tracking/_multitrack.py
+++ b/xboa/tracking/_multitrack.py
@@ -87,7 +87,7 @@ class MultiTrack(TrackingBase):
         """
         Just call track_one on the hit
         """
-        self.tracking.track_one(a_hit)
+        return self.tracking_job.tracking.track_one(a_hit)
 
     def track_many(self, hit_list):
         """
-- 
2.43.0


From 84309b06377918fbba5769b3dc82e193be7099f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 65/94] fix: ThisNodeProcess can be given new hits after it ran

---
 xboa/tracking/tracking_process/_this_node_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xboa/tracking/tracking_process/_this_node_process.py b/xboa/tracking/tracking_process/_this_node_process.py
index 3d9fda2..1162086 100644
--- a/xboa/tracking/tracking_process/_this_node_process.py
+++ b/xboa/tracking/tracking_process/_this_node_process.py
@@ -43,6 +43,14 @@ class ThisNodeProcess(TrackingProcess):
         TrackingProcess.__init__(self, tracking)
         self.proc = None
 
+    def __getstate__(self):
+        """
+        Pickle everything except for the subprocess, which cannot be pickled
+        """
+        state = dict(self.__dict__)
+        state["proc"] = None
+        return state
+
     def start(self):
         """
         Start the tracking by opening a subprocess and calling run()
-- 
2.43.0


From addb3fcd5a429cf14c0c2af9fcc2a187465e2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 66/94] fix: VoronoiWeighting failed with python 3

---
 xboa/bunch/weighting/_hull_content.py      | 5 +++--
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 392ac42..4994c15 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -18,6 +18,7 @@
 HullContent class should be imported directly from xboa.bunch.weighting
 """
 
+import math
 import multiprocessing
 import signal
 import os
@@ -88,7 +89,7 @@ def _get_cm_matrix(simplex, triangulation, dimension):
             point_i = triangulation.points[vertex_i]
             point_j = triangulation.points[vertex_j]
             square = [(point_i[d] - point_j[d])**2 \
-                                             for d in xrange(dimension)]
+                                             for d in range(dimension)]
             length_sq = sum(square)
             elements[i+1, j+1] = length_sq
             elements[j+1, i+1] = length_sq
@@ -109,7 +110,7 @@ def _tile_content(args):
         content = 0.
         triangulation = scipy.spatial.Delaunay(points)
         coefficient = (-1)**(dimension+1)/2.**dimension
-        coefficient /= numpy.math.factorial(dimension)**2.
+        coefficient /= math.factorial(dimension)**2.
         for simplex in triangulation.simplices:
             elements = _get_cm_matrix(simplex, triangulation, dimension)
             det = numpy.linalg.det(elements)
diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index ee23c01..72b4990 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -144,7 +144,7 @@ class VoronoiWeighting(object):
         Returns None (the bunch is weighted "in-place")
         """
         self.real_points = bunch.list_get_hit_variable(self.weight_variables)
-        self.real_points = zip(*tuple(self.real_points))
+        self.real_points = list(zip(*tuple(self.real_points)))
         self.real_points = numpy.array(self.real_points)
         if self.voronoi_bound != None:
             self.real_points, not_cut = \
-- 
2.43.0


From 40056d6e15370dd670f9813c5c424631d2d00cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 67/94] fix: VoronoiWeighting could not be given a mean of two
 or more variables

---
 xboa/bunch/weighting/_voronoi_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 72b4990..4cb51ff 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -99,7 +99,7 @@ class VoronoiWeighting(object):
         config.has_numpy()
         config.has_scipy()
         self.dim = len(weight_variables)
-        if weight_mean == None:
+        if weight_mean is None:
             weight_mean = numpy.array([0.]*self.dim)
         if (self.dim,) != numpy.shape(weight_mean):
             raise ValueError("weight_mean shape "+\
-- 
2.43.0


From 87359c31b7b1579e123675d8eeae79ea297d4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 68/94] fix: HullContent failed for a list of some of the
 regions

---
 xboa/bunch/weighting/_hull_content.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 4994c15..5016736 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -65,14 +65,14 @@ class HullContent(object):
         """
         Recalculate the tile content list
         """
-        job_list = [None]*len(self.region_list)
+        job_list = []
         for i in self.region_list:
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             tile_index = self.tesselation.point_region[i]
             region = self.tesselation.regions[tile_index]
             points = numpy.array([self.tesselation.vertices[j] for j in region])
-            job_list[i] = (region, points)
+            job_list.append((region, points))
         self.tile_content_list = self.pool.map(_tile_content, job_list)
 
 def _init_worker():
-- 
2.43.0


From 4bf352b3506ff51b822b9231d610d5b3caff805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 69/94] fix: HullContent hid errors of its pool behind an
 AttributeError

---
 xboa/bunch/weighting/_hull_content.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xboa/bunch/weighting/_hull_content.py b/xboa/bunch/weighting/_hull_content.py
index 5016736..777a6d0 100644
--- a/xboa/bunch/weighting/_hull_content.py
+++ b/xboa/bunch/weighting/_hull_content.py
@@ -50,11 +50,11 @@ class HullContent(object):
         """
         config.has_numpy()
         config.has_scipy()
+        self.tesselation = tesselation
+        self.region_list = region_list
+        self.tile_content_list = None
+        self.pool = multiprocessing.Pool(n_procs, _init_worker)
         try:
-            self.tesselation = tesselation
-            self.region_list = region_list
-            self.pool = multiprocessing.Pool(n_procs, _init_worker)
-            self.tile_content_list = None
             self.recalculate()
         except:
             self.pool.terminate()
-- 
2.43.0


From 2176d060ce148d010ce83bd5e90d5a6bf57a14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 70/94] fix: Voronoi plots drew the points of the first two
 variables, and tiles of bounding points

---
 xboa/bunch/weighting/_voronoi_weighting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index 4cb51ff..a156565 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -211,18 +211,18 @@ class VoronoiWeighting(object):
         config.has_root()
         if lower == None:
             lower = 0
-        if upper == None:
-            upper = len(self.real_points)
         if len(projection_axes) != 2:
             raise ValueError("Expected projection axes of length 2")
         if projection_axes[0] not in self.weight_variables or \
            projection_axes[1] not in self.weight_variables:
             raise ValueError("Projection axes "+str(projection_axes)+\
                              " should be a subset of weight_variables "+
-                             str(weight_variables))
+                             str(self.weight_variables))
         if self.tesselation == None:
             raise ValueError("Need to apply_weights before tesselation can be"+
                              "plotted")
+        if upper == None:
+            upper = len(self.real_points)
         title = "tesselation_"+str(projection_axes[0])+"_"+\
                 str(projection_axes[1])
         canvas = common.make_root_canvas(title)
@@ -231,9 +231,9 @@ class VoronoiWeighting(object):
         y_list = [vertex[proj[1]] for vertex in self.tesselation.vertices]
         points = numpy.transpose(self.real_points)
         hist, points_graph = common.make_root_graph(title,
-                                                    points[0][lower:upper],
+                                                    points[proj[0]][lower:upper],
                                                     projection_axes[0],
-                                                    points[1][lower:upper],
+                                                    points[proj[1]][lower:upper],
                                                     projection_axes[1])
         if fill_option != None and fill_option != 'none':
             hist.SetTitle('Color by '+fill_option)
-- 
2.43.0


From 17028c4f03677bc5a2d1305d06e6723ff7f3694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 71/94] fix: MultipoleWeighting did not give the moments asked
 for

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index cdaa280..31399e5 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -122,7 +122,7 @@ class MultipoleWeighting(object):
                 list_ij = [list_i[i1]+list_j[i1] \
                                            for i1, index_i in enumerate(list_i)]
                 m_matrix[i, j] = \
-                      self._v_f(list_ij) - self._v_f(list_i) * self._v_g(list_j)
+                      self._v_f(list_ij) - self._v_g(list_i) * self._v_f(list_j)
         m_inverse = numpy.linalg.inv(m_matrix)
         u_vector = numpy.zeros([len(self.v_g_index_by_power)])
         for i, list_i in enumerate(self.v_g_index_by_power):
-- 
2.43.0


From 6bc98b5812052e6c19e2dbb0e97d2c840cd96210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 72/94] fix: MultipoleWeighting took the target ellipse as
 uncentred moments

---
 xboa/bunch/weighting/_multipole_weighting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index 31399e5..f0269b9 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -172,7 +172,8 @@ class MultipoleWeighting(object):
               indices.append([0]*n_vars)
               indices[-1][i] += 1
               indices[-1][j] += 1
-              moments.append(target_ellipse[i, j])
+              moments.append(target_ellipse[i, j]
+                             + target_mean[i]*target_mean[j])
         self.set_target_moments(indices, moments)
 
 def index_by_power():
-- 
2.43.0


From 80955c11e09b6ef1c539814e5a8ad0d88a7d7860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 73/94] fix: MultipoleWeighting did not normalise the weights
 of weighted bunches

---
 xboa/bunch/weighting/_multipole_weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index f0269b9..e8418cd 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -66,8 +66,8 @@ class MultipoleWeighting(object):
                 for k, power in enumerate(index):
                     this_w *= hit_data[k][i]**power # this_w is a_j*x_k^power
                 w_i += this_w
-            sum_weights += w_i/len(bunch)
             bunch[i][weight_var] *= w_i
+            sum_weights += bunch[i][weight_var]/len(bunch)
         # normalise to length of bunch
         for hit in bunch:
             hit[weight_var] /= sum_weights
-- 
2.43.0


From a96a2577af29641a49d463dcdd999aeef2a24b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 74/94] fix: MultipoleWeighting accepted repeated indices and
 moments it can not set

---
 xboa/bunch/weighting/_multipole_weighting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xboa/bunch/weighting/_multipole_weighting.py b/xboa/bunch/weighting/_multipole_weighting.py
index e8418cd..0d27a74 100644
--- a/xboa/bunch/weighting/_multipole_weighting.py
+++ b/xboa/bunch/weighting/_multipole_weighting.py
@@ -101,9 +101,12 @@ class MultipoleWeighting(object):
             for index in item:
                 if type(index) != type(0):
                     raise ValueError("Index type is non-integer")
+            if min(item) < 0 or not 1 <= sum(item) <= self.maximum_moment:
+                raise ValueError("Moment should be between first order and "+\
+                      "the maximum pole")
 
-        for i, item in enumerate(moment_index_list[1:]):
-            if item == moment_index_list[i]:
+        for i, item in enumerate(moment_index_list):
+            if item in moment_index_list[:i]:
                raise ValueError("Indices should be unique")
         # zip and sort
         sorted_list = sorted(zip(moment_index_list, moment_list))
-- 
2.43.0


From eb3c089bca0302a0aa0e3182ac9b8368e5e00fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:02 +0000
Subject: [PATCH 75/94] fix: deprecated modules xboa.Bunch and xboa.Hit could
 not be imported

---
 xboa/Bunch.py | 2 +-
 xboa/Hit.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/Bunch.py b/xboa/Bunch.py
index 28bdb35..0641117 100644
--- a/xboa/Bunch.py
+++ b/xboa/Bunch.py
@@ -23,5 +23,5 @@ Deprecated accessor to xboa.bunch module.
 import sys
 sys.stderr.write("Warning - importing deprecated xboa.Bunch module,"+\
                  " use xboa.bunch instead\n")
-from bunch._bunch import *
+from xboa.bunch._bunch import *
 
diff --git a/xboa/Hit.py b/xboa/Hit.py
index 7064af3..12eac62 100644
--- a/xboa/Hit.py
+++ b/xboa/Hit.py
@@ -23,5 +23,5 @@ Deprecated accessor to xboa.hit module.
 import sys
 sys.stderr.write("Warning - importing deprecated xboa.Hit module,"+\
                  " use xboa.hit instead\n")
-from hit import *
+from xboa.hit import *
 
-- 
2.43.0


From 46c8b400570e170a272eb7a1d5d9af78fa267568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 76/94] fix: MAUS ROOT primaries took their charge from a
 lookup of charge, not pid

---
 xboa/hit/factory/_maus_root_hit_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 2bcb986..783dc58 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -171,7 +171,7 @@ class MausRootHitFactory(HitFactoryBase):
                 hit["mass"] = 0.
                 self.bad_pid(hit["pid"])
             try:
-                hit["charge"] = common.pdg_pid_to_charge[hit["charge"]]
+                hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
             except KeyError:
                 hit["charge"] = 0.
                 self.bad_pid(hit["pid"])
-- 
2.43.0


From 953c37c979fafee232749d9f0be9316ccfff2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 77/94] fix: MAUS ROOT SciFi track points could not be read
 (StopIteration in a generator)

---
 xboa/hit/factory/_maus_root_recon_hit_factory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/xboa/hit/factory/_maus_root_recon_hit_factory.py b/xboa/hit/factory/_maus_root_recon_hit_factory.py
index 3d9872c..71525d0 100644
--- a/xboa/hit/factory/_maus_root_recon_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_recon_hit_factory.py
@@ -129,7 +129,6 @@ class MausRootReconHitFactory(HitFactoryBase):
                 hit["spill"] = self.spill_number
                 hit["particle_number"] = track_i
                 yield hit
-        raise StopIteration("Out of events")
 
     def _read_tof_01_space_points(self, tof_event):
         """
-- 
2.43.0


From 610fde36a5b29edb789da3d92809a61cfca8e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:19 +0000
Subject: [PATCH 78/94] fix: Hit.new_list_from_maus_root called a factory that
 does not exist

---
 xboa/hit/_hit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 7666b68..757bd22 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -201,7 +201,7 @@ class Hit(object):
     Returns a list of hit objects. Station number will be taken from the relevant maus_type. event_number will be given by the spill_number. track_number will be given by
     the index on mc_events or recon_events
     """
-    fac = xboa.hit.factory.factory.MausRootHitFactory(format, root_tree, entry_number)
+    fac = xboa.hit.factory.MausRootHitFactory(root_tree, format, entry_number)
     hit_list = [hit for hit in fac.hit_generator()]
     return hit_list
 
-- 
2.43.0


From e0005cd945cec8cbdf379626910f8b992b3b95da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 79/94] fix: MAUS ROOT steps of a particle type not in the
 tables stopped the read

---
 xboa/hit/factory/_maus_root_hit_factory.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xboa/hit/factory/_maus_root_hit_factory.py b/xboa/hit/factory/_maus_root_hit_factory.py
index 783dc58..7dd505a 100644
--- a/xboa/hit/factory/_maus_root_hit_factory.py
+++ b/xboa/hit/factory/_maus_root_hit_factory.py
@@ -138,8 +138,16 @@ class MausRootHitFactory(HitFactoryBase):
                     hit["station"] = step_index
                     hit["pid"] = track.GetParticleId()
                     hit["particle_number"] = track.GetTrackId()
-                    hit["mass"] = common.pdg_pid_to_mass[abs(hit["pid"])]
-                    hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
+                    try:
+                        hit["mass"] = common.pdg_pid_to_mass[abs(hit["pid"])]
+                    except KeyError:
+                        hit["mass"] = 0.
+                        self.bad_pid(hit["pid"])
+                    try:
+                        hit["charge"] = common.pdg_pid_to_charge[hit["pid"]]
+                    except KeyError:
+                        hit["charge"] = 0.
+                        self.bad_pid(hit["pid"])
                     hit["proper_time"] = step.GetProperTime()
                     hit["path_length"] = step.GetPathLength()
                     hit["spill"] = self.spill_number
-- 
2.43.0


From 31e24b7acadee23b69905fd5e0b669e5164bc99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 80/94] fix: OpalHitFactory could not be made or read from

---
 xboa/hit/factory/_opal_hit_factory.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/xboa/hit/factory/_opal_hit_factory.py b/xboa/hit/factory/_opal_hit_factory.py
index 9f51f7d..bc25f4c 100644
--- a/xboa/hit/factory/_opal_hit_factory.py
+++ b/xboa/hit/factory/_opal_hit_factory.py
@@ -15,6 +15,8 @@
 # along with xboa in the doc folder.  If not, see 
 # <http://www.gnu.org/licenses/>.
 
+import xboa.common as common
+import xboa.hit
 from xboa.hit.factory import LineFactoryBase
 
 class OpalHitFactory(LineFactoryBase):
@@ -22,13 +24,13 @@ class OpalHitFactory(LineFactoryBase):
     Factory class for line by line reads of OPAL output files
     """
     def __init__(self, pid, probes, ignore_probes, filehandle):
-        super(LineFactoryBase.__init__(self))
-        if pid not in Common.pdg_pid_to_mass or \
-           pid not in Common.pdg_pid_to_charge:
-            raise
+        super(OpalHitFactory, self).__init__()
+        if abs(pid) not in common.pdg_pid_to_mass or \
+           pid not in common.pdg_pid_to_charge:
+            raise KeyError("Did not recognise pid "+str(pid))
         self.pid = pid
         self.probes = probes
-        self.ignore_probes = []
+        self.ignore_probes = ignore_probes
         self.filehandle = filehandle
 
     # read beam loss hit
@@ -44,24 +46,25 @@ class OpalHitFactory(LineFactoryBase):
         probes = self.probes
         pid = self.pid
         try:
-          line = self.filehandle.next()
+          line = next(self.filehandle)
         except StopIteration:
           raise EOFError("End of file reached")
         words = line.split()
-        if words[0] in self.ignore_probes:
-          raise BadEventError("Failed to parse event")
         if not len(words) == 10:
-          raise BadEventError("Failed to parse event")
+          raise xboa.hit.BadEventError("Failed to parse event")
+        if words[0] in self.ignore_probes:
+          raise xboa.hit.BadEventError("Failed to parse event")
         if words[0] not in probes.keys():
           probes[words[0]] = len(probes.keys())
         hit_dict = dict( (key, float(words[i+1]) ) for i, key in enumerate(['x', 'y', 'z', 'px', 'py', 'pz', 'event_number', 'station', 't']))
+        hit_dict['event_number'] = int(hit_dict['event_number'])
         hit_dict['pid'] = pid
-        hit_dict['mass'] = Common.pdg_pid_to_mass[abs(pid)]
-        hit_dict['charge'] = Common.pdg_pid_to_charge[pid]
+        hit_dict['mass'] = common.pdg_pid_to_mass[abs(pid)]
+        hit_dict['charge'] = common.pdg_pid_to_charge[pid]
         hit_dict['station'] = probes[words[0]]+len(probes)*(int(words[8])-1)
         for item in ['px', 'py', 'pz']:
           hit_dict[item] *= hit_dict['mass']
-        hit = Hit.new_from_dict(hit_dict)
+        hit = xboa.hit.Hit.new_from_dict(hit_dict)
         hit.mass_shell_condition('energy')
         return hit
 
-- 
2.43.0


From cc9002f88485ce7a7e73f437e6e8b0949ea1d2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 81/94] fix: xboa.algorithms.smoothing could not be imported
 without ROOT

---
 xboa/algorithms/smoothing/_fit_smoothing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/smoothing/_fit_smoothing.py b/xboa/algorithms/smoothing/_fit_smoothing.py
index 9d9eec6..25b0817 100644
--- a/xboa/algorithms/smoothing/_fit_smoothing.py
+++ b/xboa/algorithms/smoothing/_fit_smoothing.py
@@ -1,11 +1,16 @@
 import copy
-import ROOT
+try:
+    import ROOT
+except ImportError:
+    pass
+import xboa.common.config as config
 
 class FitSmoothing(object):
     def __init__(self, fit_function):
         self.fit = fit_function
 
     def smooth(self, data):
+        config.has_root()
         graph = ROOT.TGraph(len(data))
         for i, data_y in enumerate(data):
             graph.SetPoint(i, i, data_y)
-- 
2.43.0


From 1e70c31f8991a45314bbccbfe4fff2364b077aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 82/94] fix: without matplotlib the numpy functions of Bunch
 did not work

---
 xboa/bunch/_bunch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 2b85b52..24c922b 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -37,11 +37,14 @@ except ImportError:
   pass
 try:
   import numpy
-  import matplotlib
   from numpy import matrix
   from numpy import linalg
 except ImportError:
   pass
+try:
+  import matplotlib
+except ImportError:
+  pass
 
 import xboa.common as Common
 import xboa.common.config as config
-- 
2.43.0


From c3df902fb764b05478362df67710b0570e82c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 83/94] fix: some functions gave NameError, not ImportError,
 without ROOT or numpy

---
 xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py | 2 ++
 xboa/common/_common.py                                      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
index aa4e40b..7d656c9 100644
--- a/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
+++ b/xboa/algorithms/peak_finder/_uphill_downhill_peak_finder.py
@@ -20,6 +20,7 @@ try:
     import ROOT
 except ImportError:
     pass
+import xboa.common.config as config
 
 class UphillDownhillPeakFinder(object):
     """
@@ -29,6 +30,7 @@ class UphillDownhillPeakFinder(object):
         """
         Initialise the peak finder
         """
+        config.has_root()
         self.fit = ROOT.TF1("fit","[0]+[1]*x+[2]*x*x+[3]*x*x*x+[4]*x*x*x", 0., 1.)
 
     def _get_derivative(self, data):
diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index b18503c..8cae1ce 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -811,6 +811,7 @@ def kolmogorov_smirnov_test(list_1, list_2):
   - list_2 = list of floats that are sampled from other some parent distribution
   Returns double between 0. and 1. giving probability that list_1 and list_2 have the same parent distribution.
   """
+  config.has_root()
   list_1 = sorted(list_1)
   list_2 = sorted(list_2)
   c_array_1 = ctypes.c_double*len(list_1)
@@ -1009,6 +1010,7 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
     points on the ellipse is given by (x-<x>)^T*V^{-1}*(x-<x>) where x is a
     particle vector and V is the defining matrix.
     """
+    config.has_numpy()
     n_points = len(points)
     old_det = 1.
     mean, cov = numpy.ones([2]), numpy.ones([2, 2])
-- 
2.43.0


From a2ebfd4efb58fafbbf05c2e7063098bd16150a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 84/94] fix: BSubProcess could not read the output of bsub and
 bjobs

---
 xboa/tracking/tracking_process/_bsub_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xboa/tracking/tracking_process/_bsub_process.py b/xboa/tracking/tracking_process/_bsub_process.py
index 90c0e24..ff4aefd 100644
--- a/xboa/tracking/tracking_process/_bsub_process.py
+++ b/xboa/tracking/tracking_process/_bsub_process.py
@@ -66,7 +66,7 @@ class BSubProcess(TrackingProcess):
                                       '-o', log,
                                       '-e', err,
                                       self.run_executable,
-                                      "--out-dir", self.out_dir])
+                                      "--out-dir", self.out_dir]).decode()
         start_index = proc_output.find("<")+1
         end_index = proc_output.find(">")
         self.pid = int(proc_output[start_index:end_index])
@@ -77,13 +77,13 @@ class BSubProcess(TrackingProcess):
         """
         if self.pid == None:
             return False
-        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)])
+        proc_output = subprocess.check_output(['bjobs', '-l', str(self.pid)]).decode()
         status = self._get_substr(proc_output, 'Status <', '>')
         if status in ["PEND", "RUN", "WAIT"]:
             return True
         self.exitcode = 0
         try:
-            self.exitcode = self._get_substr(proc_output, 'exit code ', '.')
+            self.exitcode = int(self._get_substr(proc_output, 'exit code ', '.'))
         except ValueError:
             pass # no report if exit code was 0
         return False
-- 
2.43.0


From 38b9f758f53190d55277ca5cc8a903f745c1f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 85/94] fix: the highest tile of a Voronoi plot could get the
 colour of the lowest

---
 xboa/bunch/weighting/_voronoi_weighting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/weighting/_voronoi_weighting.py b/xboa/bunch/weighting/_voronoi_weighting.py
index a156565..e00ee71 100644
--- a/xboa/bunch/weighting/_voronoi_weighting.py
+++ b/xboa/bunch/weighting/_voronoi_weighting.py
@@ -280,7 +280,9 @@ class VoronoiWeighting(object):
         n_colors = ROOT.TColor.GetNumberOfColors()
         bounds = [min(fill_data)+i*(max(fill_data)-min(fill_data))/(n_colors-1)\
                                                      for i in range(n_colors)]
-        fill_colors = [bisect.bisect_left(bounds, fill) for fill in fill_data]
+        # the last bound can round to below the maximum
+        fill_colors = [min(bisect.bisect_left(bounds, fill), n_colors-1) \
+                                                         for fill in fill_data]
         fill_colors = [ROOT.TColor.GetColorPalette(i) for i in fill_colors]
         return fill_colors
 
-- 
2.43.0


From 54654aac633052ffa8d79fd8b6d65c9945c0679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 86/94] fix: plot_fft_fit ignored the window of the fit

---
 xboa/algorithms/tune/_fft_tune.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/algorithms/tune/_fft_tune.py b/xboa/algorithms/tune/_fft_tune.py
index e9f07e6..f46e8c0 100644
--- a/xboa/algorithms/tune/_fft_tune.py
+++ b/xboa/algorithms/tune/_fft_tune.py
@@ -216,7 +216,7 @@ class FFTTuneFinder(object):
             fit.SetParameter(0, fit_centre)
             fit.SetParameter(1, fit_height)
             fit.SetParameter(2, fit_height)
-        graph.Fit(fit)
+        graph.Fit(fit, "R")
         canvas.cd()
         fit.Draw("SAME")
         print("Got peak at", fit.GetParameter(0), "with error", fit.GetParError(0))
-- 
2.43.0


From dfcf069c23ee64435b71dfb5056229262e448b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 87/94] fix: mass_shell_condition reflected hits of negative
 momentum

---
 xboa/hit/_hit.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index 757bd22..aa26f91 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -290,7 +290,8 @@ class Hit(object):
 
   def mass_shell_condition(self, variable_string, float_tolerance = 1.e-6):
     """
-    Change variable represented by variable_string to force E^2 = p^2 + m^2
+    Change variable represented by variable_string to force E^2 = p^2 + m^2.
+    The direction of the momentum is kept.
 
     - variable_string = string which should be one of the list mass_shell_variables().
 
@@ -312,21 +313,21 @@ class Hit(object):
     elif(variable_string == 'px'):#get direction right!
       val = (e*e-m*m-py*py-pz*pz)
       if val>float_tolerance:
-        self.set('px', abs(val)**1.5/val )
+        self.set('px', -val**0.5 if px < 0. else val**0.5)
       else:
         self.set('px', 0.)
         return False
     elif(variable_string == 'py'):
       val = (e*e-m*m-px*px-pz*pz)
       if val>float_tolerance:
-        self.set('py', abs(val)**1.5/val )
+        self.set('py', -val**0.5 if py < 0. else val**0.5)
       else:
         self.set('py', 0.)
         return False
     elif(variable_string == 'pz'):
       val = (e*e-m*m-px*px-py*py)
       if val>float_tolerance:
-        self.set('pz', abs(val)**1.5/val )
+        self.set('pz', -val**0.5 if pz < 0. else val**0.5)
       else:
         self.set('pz', 0.)
         return False
-- 
2.43.0


From c27b5c708ebc78a577c2a74914bf30afabee03e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 88/94] fix: DecoupledTransferMatrix phase advance had the
 wrong sign for some planes

---
 xboa/algorithms/decoupled_transfer_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xboa/algorithms/decoupled_transfer_matrix.py b/xboa/algorithms/decoupled_transfer_matrix.py
index c5ee45d..17a20b2 100644
--- a/xboa/algorithms/decoupled_transfer_matrix.py
+++ b/xboa/algorithms/decoupled_transfer_matrix.py
@@ -71,10 +71,11 @@ class DecoupledTransferMatrix(object):
             self.t_evector[j+1, j] = 1./cmath.sqrt(beta_i)*(-alpha_i+1j)*exp_phi_i
             self.t_evector[j,   j+1] = numpy.conj(self.t_evector[j, j])
             self.t_evector[j+1, j+1] = numpy.conj(self.t_evector[j+1, j])
-            self.phase[i] = phase_i
             sign = 1.
             if beta_i < 0:
                 sign = -1.
+            # phase for which beta is positive
+            self.phase[i] = sign*phase_i
             self.v_t[j, j] = sign*beta_i
             self.v_t[j, j+1] = -sign*alpha_i
             self.v_t[j+1, j] = -sign*alpha_i
-- 
2.43.0


From 769bd4c242c613363123baed73b72edd9967bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 89/94] fix: hit_equality took no notice of its tolerance

---
 xboa/bunch/_bunch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index 24c922b..ebad5ba 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -624,7 +624,7 @@ class Bunch:
     """
     if len(self) != len(target): return False
     for i in range( len(self) ):
-      if self[i] != target[i]: return False
+      if self[i].__ne__(target[i], float_tolerance): return False
     return True
 
   def conditional_remove(self, variable_value_dict, comparator, value_is_nsigma_bool = False):
-- 
2.43.0


From bbff6165cc7bd865afd35773e351bcc29f974e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 90/94] fix: moments about a given point ignored it when the
 internal covariance matrix was on

---
 xboa/bunch/_bunch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index ebad5ba..c04026a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -703,7 +703,12 @@ class Bunch:
       try:
         i1 = axis_list.index(variable_list[0])
         i2 = axis_list.index(variable_list[1])
-        return float(self.__covs[i1,i2]) # not numpy.float64
+        # the internal covariances are about the mean
+        mean_dict = self.mean(variable_list)
+        offset = 1.
+        for var in variable_list:
+          offset *= mean_dict[var] - variable_mean_dict.get(var, mean_dict[var])
+        return float(self.__covs[i1,i2]) + offset # not numpy.float64
       except ValueError:
         pass
     missing = [var for var in variable_list if not var in variable_mean_dict]
-- 
2.43.0


From 3c65be22fabd6149a8857f0ccf307b1ee7f95ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:35 +0000
Subject: [PATCH 91/94] fix: light nuclei had no charge, and the anti-K0
 neither charge nor name

---
 xboa/common/_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 8cae1ce..3f390d6 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -87,9 +87,9 @@ for k,v in mars_pid_to_pdg.items():
 
 pdg_pid_to_mass  = {0:0, 11:0.510998910, 12:0., 13:105.6583668, 14:0., 22:0., 111:134.9766, 211:139.57018, 321:493.667, 2112:939.56536, 2212:938.271996, 1000010020:1876.1239, 1000010030:2809.432, 1000020030:2809.41346, 1000020040: 3728.4001, 130:497.614, 310:497.614, 311:497.614, 3122:1115.683}
 pdg_pid_to_name  = {0:'none', 11:'e-', 12:'electron neutrino', 13:'mu-', 14:'muon neutrino', 22:'photon', 111:'pi0', 211:'pi+', 321:'K+', 2112:'neutron', 2212:'proton', 1000010020:'deuterium', 1000010030:'tritium', 1000020030:'3He', 1000020040:'4He', 130:'K0L', 310:'K0S', 311:'K0', 3122:'lambda',
--11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
+-11:'e+', -12:'electron antineutrino', -13:'mu+', -14:'muon antineutrino', -211:'pi-', -321:'K-', -311:'anti-K0', -2112:'antineutron', -2212:'antiproton', -3122:'antilambda'}
 
-pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:0, 1000010030:0, 1000020030:0, 1000020040:0, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -3122:0}
+pdg_pid_to_charge  = {0:0, 11:-1, 12:0, 13:-1, 14:0, 22:0, 111:0, 211:+1, 321:+1, 2112:0, 2212:+1, 1000010020:+1, 1000010030:+1, 1000020030:+2, 1000020040:+2, 130:0, 310:0, 311:0, 3122:0, -11:+1, -12:0, -13:+1, -14:0, -211:-1, -321:-1, -2112:0, -2212:-1, -311:0, -3122:0}
 
 
 constants        = {'c_light':299.792458, 'pi':3.14159265,'echarge':1}
-- 
2.43.0


From 6d31342c795d60dbce46bd8c0ac976f21bd87cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 92/94] fix: hit t' of either sign can be set for either sign
 of pz

---
 xboa/hit/_hit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xboa/hit/_hit.py b/xboa/hit/_hit.py
index aa26f91..8a9a318 100644
--- a/xboa/hit/_hit.py
+++ b/xboa/hit/_hit.py
@@ -653,7 +653,7 @@ class Hit(object):
     """Set t\' (dt/dz=-E/pz) to value_float keeping pz constant; note sign of pz may change"""
     if(math.fabs(self['pz']) < 1e-9): raise FloatingPointError('Cant set t\' while pz is 0')
     self['energy'] = -value_float*self['pz']
-    if self['pz'] < 0.: 
+    if self['energy'] < 0.:
       self['energy'] *= -1.
       self['pz']     *= -1.
     if self['energy'] < self.get('mass'): raise FloatingPointError('Energy less than muon mass')
-- 
2.43.0


From 1c569b101c129abc5e6ef9a1d272a036e694176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:24 +0000
Subject: [PATCH 93/94] fix: fit_ellipse makes its cut for small ellipses too

---
 xboa/common/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/common/_common.py b/xboa/common/_common.py
index 3f390d6..6abb1ca 100644
--- a/xboa/common/_common.py
+++ b/xboa/common/_common.py
@@ -1019,7 +1019,9 @@ def fit_ellipse(points, eps_cut, weights=None, max_number_of_iterations = 10, ve
         weights = [1.,]*n_points
     iterations = 0
     try:
-        while abs(numpy.linalg.det(cov)-old_det) > float_tolerance and \
+        # relative to det if it is small; otherwise small ellipses are never cut
+        while abs(numpy.linalg.det(cov)-old_det) > \
+              float_tolerance*min(1., abs(numpy.linalg.det(cov)+old_det)) and \
               iterations < max_number_of_iterations:
             iterations += 1
             my_sum = 0
-- 
2.43.0


From 3598ed69f7bee8c2bf828e249e5e012ab0dd54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 94/94] fix: transform_to translates any variable, as
 documented

---
 xboa/bunch/_bunch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xboa/bunch/_bunch.py b/xboa/bunch/_bunch.py
index c04026a..2c9021a 100644
--- a/xboa/bunch/_bunch.py
+++ b/xboa/bunch/_bunch.py
@@ -574,7 +574,9 @@ class Bunch:
     transform  = ununite*unite
     power      = 1./float(len(transform_list))
     transform  = transform/(abs(linalg.det(transform))**power)
-    self.abelian_transformation(transform_list, transform, translation_dict, origin_dict, mass_shell_variable)
+    self.abelian_transformation(transform_list, transform, {}, origin_dict)
+    # abelian_transformation would only translate variables in transform_list
+    self.translate(translation_dict, mass_shell_variable)
   
   def period_transformation(self, offset, frequency, variable='t'):
     """
-- 
2.43.0

