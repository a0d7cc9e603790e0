From 08b88731a48f5018e104c368b766a842f69b3193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 01/53] fix: make the Decision and Effect constants read-only
 as documented

The value property of Permit/Deny/... constants still bound the base class
setter, so assigning response.results[0].decision.value rewrote the constant
shared by every later evaluation.
---
 ndg/xacml/core/context/result.py | 18 ++++++++++++++++--
 ndg/xacml/core/rule.py           | 10 +++++++++-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index c462884..90f6dd0 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -311,7 +311,9 @@ class Decision(object):
     
     def __init__(self, decision=INDETERMINATE_STR):
         self.__value = None
-        self.value = decision
+        
+        # Call explicitly: the value property is read-only in derived types
+        Decision._setValue(self, decision)
 
     def __getstate__(self):
         '''Enable pickling
@@ -421,12 +423,15 @@ class PermitDecision(Decision):
         """Initialise set with Permit value"""
         super(PermitDecision, self).__init__(Decision.PERMIT_STR)
         
-    def _setValue(self):  
+    def _setValue(self, value):  
         """Make value read-only
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
+
 
 class DenyDecision(Decision):
     """Deny authorisation Decision"""
@@ -442,6 +447,9 @@ class DenyDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
+
 
 class IndeterminateDecision(Decision):
     """Indeterminate authorisation Decision"""
@@ -457,6 +465,9 @@ class IndeterminateDecision(Decision):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
+
 
 class NotApplicableDecision(Decision):
     """NotApplicable authorisation Decision"""
@@ -471,6 +482,9 @@ class NotApplicableDecision(Decision):
         @raise AttributeError: value can't be set
         """
         raise AttributeError("can't set attribute")
+
+    value = property(fget=Decision._getValue, fset=_setValue, 
+                     doc="Decision value (read-only)")
     
     
 # Add instances of each for convenience
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index b1a32f2..bc6e3e5 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -44,7 +44,9 @@ class Effect(object):
         @type effect: basestring / ndg.xacml.core.rule.Effect
         """
         self.__value = None
-        self.value = effect
+        
+        # Call explicitly: the value property is read-only in derived types
+        Effect._setValue(self, effect)
 
     def __getstate__(self):
         '''Enable pickling
@@ -160,6 +162,9 @@ class PermitEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value (read-only)")
+
 
 class DenyEffect(Effect):
     """Deny authorisation Effect"""
@@ -175,6 +180,9 @@ class DenyEffect(Effect):
         """
         raise AttributeError("can't set attribute")
 
+    value = property(fget=Effect._getValue, fset=_setValue, 
+                     doc="Effect value (read-only)")
+
 # Add instances of each for convenience
 Effect.PERMIT = PermitEffect()
 Effect.DENY = DenyEffect()
-- 
2.43.0


From ce3152ca2add4a347ed07bce9c8bafc83b68b59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:42 +0000
Subject: [PATCH 02/53] fix: raise TypeError when a Decision or Effect is
 compared with another type

The message referred to an unassigned local so that UnboundLocalError was
raised instead of the documented TypeError.
---
 ndg/xacml/core/context/result.py | 3 ++-
 ndg/xacml/core/obligation.py     | 3 ++-
 ndg/xacml/core/rule.py           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 90f6dd0..1bb0b9e 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -406,7 +406,8 @@ class Decision(object):
             
         else:
             raise TypeError('Expecting string or Decision instance for '
-                            'input decision value; got %r instead' % type(value))
+                            'input decision value; got %r instead' % 
+                            type(decision))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable decision types are %r; got '
diff --git a/ndg/xacml/core/obligation.py b/ndg/xacml/core/obligation.py
index 13c6f7f..d889312 100644
--- a/ndg/xacml/core/obligation.py
+++ b/ndg/xacml/core/obligation.py
@@ -130,7 +130,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index bc6e3e5..4f415ca 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -131,7 +131,8 @@ class Effect(object):
             
         else:
             raise TypeError('Expecting string or Effect instance for '
-                            'input effect value; got %r instead' % type(value))
+                            'input effect value; got %r instead' % 
+                            type(effect))
             
         if value not in self.__class__.TYPES:
             raise AttributeError('Permissable effect types are %r; got '
-- 
2.43.0


From bdb990d2828f4d0cc47966752d5ae04896149ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:30 +0000
Subject: [PATCH 03/53] fix: a rule condition which is not boolean is an error

The condition result was judged by its truth value so that a rule fired for
boolean-one-and-only of a False attribute, for any string and for any
non-empty bag.  Take the value of a boolean attribute value and treat any
other type as an error (Indeterminate).
---
 ndg/xacml/core/condition.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/condition.py b/ndg/xacml/core/condition.py
index fde03c8..0315048 100644
--- a/ndg/xacml/core/condition.py
+++ b/ndg/xacml/core/condition.py
@@ -10,6 +10,8 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core import XacmlCoreBase
+from ndg.xacml.core.attributevalue import AttributeValue
+from ndg.xacml.core.context.exceptions import XacmlContextTypeError
 from ndg.xacml.core.expression import Expression
 
 
@@ -69,4 +71,15 @@ class Condition(XacmlCoreBase):
         """
         result = self.expression.evaluate(context)
         
-        return result
\ No newline at end of file
+        # An expression such as boolean-one-and-only yields an attribute value
+        if isinstance(result, AttributeValue):
+            result = result.value
+            
+        # The condition must be a boolean - any other type is an error and not
+        # to be interpreted according to its truth value
+        if not isinstance(result, bool):
+            raise XacmlContextTypeError('Expecting %r type result for '
+                                        'condition expression; got %r' % 
+                                        (bool, type(result)))
+            
+        return result
-- 
2.43.0


From 8702b2f703e6ea614bebde2133edb79efee8f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:55 +0000
Subject: [PATCH 04/53] fix: resolve the default policy finder's base path for
 files, streams and elements

getDefaultPolicyFinder raised NameError for any source other than a string
and gave an empty or relative base path for a relative file name, from which
no valid file URL can be made.
---
 ndg/xacml/finder/defaultfinder.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ndg/xacml/finder/defaultfinder.py b/ndg/xacml/finder/defaultfinder.py
index 5494742..2b86500 100644
--- a/ndg/xacml/finder/defaultfinder.py
+++ b/ndg/xacml/finder/defaultfinder.py
@@ -28,10 +28,14 @@ def getDefaultPolicyFinder(source):
     # deduced.
     basePath = None
     if isinstance(source, str):
-        if os.path.exists(source):
-            basePath = os.path.dirname(source)
-    elif isinstance(source, file):
-        if hasattr(file, 'name') and file.name:
-            basePath = os.path.dirname(file.name)
+        sourcePath = source
+    else:
+        # File objects have the path as their name attribute
+        sourcePath = getattr(source, 'name', None)
+
+    if isinstance(sourcePath, str) and os.path.exists(sourcePath):
+        # Must be absolute in order to make file URLs from it
+        basePath = os.path.dirname(os.path.abspath(sourcePath))
+
     finder = UrlPolicyFinder(basePath)
     return finder
-- 
2.43.0


From 211061e92428bc7715eab65ad759bebd66fa5cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:12 +0000
Subject: [PATCH 05/53] fix: read the defaults of a policy set

---
 ndg/xacml/parsers/etree/policydefaultsreader.py | 14 +++++++++-----
 ndg/xacml/parsers/etree/policysetreader.py      |  5 +++--
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index b4b4ba0..7c3f806 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -10,8 +10,9 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
+from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -39,22 +40,25 @@ class PolicyDefaultsReader(ETreeAbstractReader):
         xacmlType = self.__class__.TYPE
         policyDefaults = xacmlType()
         
+        # The same type is used for the defaults of a Policy and a PolicySet
         localName = QName.getLocalPart(elem.tag)
-        if localName != xacmlType.ELEMENT_LOCAL_NAME:
+        if localName not in (xacmlType.ELEMENT_LOCAL_NAME,
+                             PolicySet.POLICY_SET_DEFAULTS_LOCAL_NAME):
             raise XMLParseError("No \"%s\" element found" % 
                                 xacmlType.ELEMENT_LOCAL_NAME)
         
-        if len(elem) != 1:
+        childElems = list(getElementChildren(elem))
+        if len(childElems) != 1:
             raise XMLParseError('Expecting a single child element for '
                                 'PolicyDefaults element')
             
-        if (QName.getLocalPart(elem[0].tag) != 
+        if (QName.getLocalPart(childElems[0].tag) != 
             xacmlType.XPATH_VERSION_ELEMENT_NAME):
             raise XMLParseError('Expecting a %r child element for '
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = elem[0].text 
+        xpathVersion = childElems[0].text 
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index c59b9d1..eba8feb 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -93,8 +93,9 @@ class PolicySetReader(ETreeAbstractReader):
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
-                policySet.policyDefaults = PolicyDefaultsReader.parse(childElem,
-                                                                      common)
+                policySet.policySetDefaults = PolicyDefaultsReader.parse(
+                                                                    childElem,
+                                                                    common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
                 TargetReader = ReaderFactory.getReader(Target)
-- 
2.43.0


From 31675246c62a6d2cb361a12c6e434cea0a4c13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 06/53] fix: PolicySet.fromSource passes the common parsing
 data to the reader

---
 ndg/xacml/core/policyset.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index 7cc9030..c5033a3 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -14,7 +14,9 @@ import logging
 log = logging.getLogger(__name__)
 
 from ndg.xacml.utils import TypedList
+from ndg.xacml.finder.defaultfinder import getDefaultPolicyFinder
 from ndg.xacml.parsers import AbstractReaderFactory, AbstractReader
+from ndg.xacml.parsers.common import Common
 from ndg.xacml.core.policybase import PolicyBase
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.target import Target
@@ -131,7 +133,7 @@ class PolicySet(PolicyBase):
         self.__policyCombiningAlg = None
 
     @classmethod
-    def fromSource(cls, source, readerFactory):
+    def fromSource(cls, source, readerFactory, finder=None):
         """Create a new policy from the input source parsing it using a
         reader from the required reader factory e.g. ETreeReaderFactory to use
         ElementTree based parsing
@@ -142,6 +144,10 @@ class PolicySet(PolicyBase):
         @param readerFactory: factory class returns reader class used to parse
         the policy
         @type readerFactory: ndg.xacml.parsers.AbstractReaderFactory
+        @param finder: policy finder; defaults to one resolving references
+        relative to the location of the source
+        @type finder: NoneType /
+        ndg.xacml.finder.policyfinderbase.PolicyFinderBase
         @return: new policy instance
         @rtype: ndg.xacml.core.policy.Policy
         """
@@ -155,7 +161,13 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting %r derived class for reader class; '
                             'got %r' % (AbstractReader, reader))
 
-        return reader.parse(source)
+        if finder is None:
+            finder = getDefaultPolicyFinder(source)
+
+        # Referenced documents may contain either a policy or a policy set
+        finder.setReader(readerFactory.getReader(PolicyBase))
+
+        return reader.parse(source, Common(finder))
 
     def _getPolicyCombiningAlgFactory(self):
         """
-- 
2.43.0


From b1fbe517ea83c786cd2324aedb1beed6053ea284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:31 +0000
Subject: [PATCH 07/53] fix: keep the previous identifier when a function or
 algorithm is refused

---
 ndg/xacml/core/apply.py     | 8 +++++++-
 ndg/xacml/core/match.py     | 8 +++++++-
 ndg/xacml/core/policy.py    | 8 +++++++-
 ndg/xacml/core/policyset.py | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/core/apply.py b/ndg/xacml/core/apply.py
index b43637b..03fd340 100644
--- a/ndg/xacml/core/apply.py
+++ b/ndg/xacml/core/apply.py
@@ -98,11 +98,17 @@ class Apply(Expression):
             raise TypeError('Expecting %r type for "functionId" '
                             'attribute; got %r' % (str, type(value)))
             
+        previousFunctionId = self.__functionId
         self.__functionId = value
         
         # Also retrieve function for this function ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Leave the ID consistent with what has been loaded
+                self.__functionId = previousFunctionId
+                raise
 
     functionId = property(_get_functionId, _set_functionId, None, 
                           "Apply type Function ID") 
diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index de267f2..df168f0 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -176,11 +176,17 @@ class MatchBase(XacmlCoreBase):
             raise TypeError('Expecting string type for "matchId" '
                             'attribute; got %r' % type(value))
             
+        previousMatchId = self.__matchId
         self.__matchId = value
         
         # Also retrieve function for this match ID if a map has been set
         if self.__loadFunctionFromId:
-            self.setFunctionFromMap(self.__functionMap)   
+            try:
+                self.setFunctionFromMap(self.__functionMap)
+            except Exception:
+                # Leave the ID consistent with what has been loaded
+                self.__matchId = previousMatchId
+                raise
 
     matchId = property(_getMatchId, _setMatchId, None, 
                        "Match identifier for match function")
diff --git a/ndg/xacml/core/policy.py b/ndg/xacml/core/policy.py
index caaf380..e6108ad 100644
--- a/ndg/xacml/core/policy.py
+++ b/ndg/xacml/core/policy.py
@@ -255,8 +255,14 @@ class Policy(PolicyBase):
             raise TypeError('Expecting string type for "ruleCombiningAlgId" '
                             'attribute; got %r' % type(value))
             
+        previousRuleCombiningAlgId = self.__ruleCombiningAlgId
         self.__ruleCombiningAlgId = value
-        self._setRuleCombiningAlgFromId()
+        try:
+            self._setRuleCombiningAlgFromId()
+        except Exception:
+            # Leave the ID consistent with what has been loaded
+            self.__ruleCombiningAlgId = previousRuleCombiningAlgId
+            raise
         
     def _setRuleCombiningAlgFromId(self):
         """Set the rule combining algorithm implementation from the Id set in
diff --git a/ndg/xacml/core/policyset.py b/ndg/xacml/core/policyset.py
index c5033a3..31e3f46 100644
--- a/ndg/xacml/core/policyset.py
+++ b/ndg/xacml/core/policyset.py
@@ -258,8 +258,14 @@ class PolicySet(PolicyBase):
             raise TypeError('Expecting string type for "policyCombiningAlgId" '
                             'attribute; got %r' % type(value))
 
+        previousPolicyCombiningAlgId = self.__policyCombiningAlgId
         self.__policyCombiningAlgId = value
-        self._setPolicyCombiningAlgFromId()
+        try:
+            self._setPolicyCombiningAlgFromId()
+        except Exception:
+            # Leave the ID consistent with what has been loaded
+            self.__policyCombiningAlgId = previousPolicyCombiningAlgId
+            raise
 
     def _setPolicyCombiningAlgFromId(self):
         """Set the policy combining algorithm implementation from the Id set in
-- 
2.43.0


From 33294f8cef5ee079ccfd6bf1bc2494340e2fe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 08/53] fix: add the readers for environment matches and
 attribute designators

---
 .../environmentattributedesignatorreader.py   | 23 +++++++++++++++
 .../parsers/etree/environmentmatchreader.py   | 28 +++++++++++++++++++
 2 files changed, 51 insertions(+)
 create mode 100644 ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
 create mode 100644 ndg/xacml/parsers/etree/environmentmatchreader.py

diff --git a/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
new file mode 100644
index 0000000..51b39e9
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentattributedesignatorreader.py
@@ -0,0 +1,23 @@
+"""NDG XACML ElementTree based reader for EnvironmentAttributeDesignator type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "19/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.attributedesignatorreader import \
+    AttributeDesignatorReaderBase
+
+
+class EnvironmentAttributeDesignatorReader(AttributeDesignatorReaderBase): 
+    '''ElementTree based XACML Environment Attribute Designator type parser
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    '''
+    TYPE = EnvironmentAttributeDesignator
diff --git a/ndg/xacml/parsers/etree/environmentmatchreader.py b/ndg/xacml/parsers/etree/environmentmatchreader.py
new file mode 100644
index 0000000..eed8d8d
--- /dev/null
+++ b/ndg/xacml/parsers/etree/environmentmatchreader.py
@@ -0,0 +1,28 @@
+"""NDG XACML ElementTree based reader for environment match type
+
+NERC DataGrid
+"""
+__author__ = "P J Kershaw"
+__date__ = "16/03/10"
+__copyright__ = "(C) 2010 Science and Technology Facilities Council"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__license__ = "BSD - see LICENSE file in top-level directory"
+__contact__ = "Philip.Kershaw@stfc.ac.uk"
+__revision__ = "$Id$"
+from ndg.xacml.core.match import EnvironmentMatch
+from ndg.xacml.core.attributedesignator import EnvironmentAttributeDesignator
+from ndg.xacml.parsers.etree.matchreader import MatchReaderBase
+
+
+class EnvironmentMatchReader(MatchReaderBase):
+    """ElementTree based parser for XACML EnvironmentMatch
+    
+    @cvar TYPE: XACML class type that this reader will read values into
+    @type TYPE: abc.ABCMeta
+    
+    @cvar ATTRIBUTE_DESIGNATOR_TYPE: type for attribute designator sub-elements
+    @type ATTRIBUTE_DESIGNATOR_TYPE: abc.ABCMeta
+    """
+    TYPE = EnvironmentMatch
+    ATTRIBUTE_DESIGNATOR_TYPE = EnvironmentAttributeDesignator
+    
-- 
2.43.0


From 0b634d5899dcec9592192e3460b19d39f2c261b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 09/53] fix: parse request attributes with the standard library
 ElementTree

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index cf63130..29ee7cb 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -416,7 +416,7 @@ class AttributeElementTree(Attribute):
             attribute.issuer = issuer
 
         # Parse sub-elements
-        if len(elem.getchildren()) == 0:
+        if not list(getElementChildren(elem)):
             raise XMLParseError("XACML context Attribute element has no "
                                 "AttributeValues")
         AttributeValueClass = cls.attributeValueClassFactory(attribute.dataType)
-- 
2.43.0


From 014949591efc483c6d8386509e00ea45253f4ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 10/53] fix: serialise a result which has a resource identifier

---
 ndg/xacml/parsers/etree/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 29ee7cb..fcaf17b 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -512,7 +512,7 @@ class ResultElementTree(Result):
         attrib = {}
         # ResourceId attribute is optional.
         if result.resourceId is not None:
-            attrib.append[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
+            attrib[cls.RESOURCE_ID_ATTRIB_NAME] = result.resourceId
 
         elem = etree.makeEtreeElement(tag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-- 
2.43.0


From fac33ac999dca0f52160a1825c229cc945e8431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 11/53] fix: declare the context namespace prefix rather than
 an attribute named after it

---
 ndg/xacml/parsers/etree/__init__.py | 2 +-
 ndg/xacml/parsers/etree/context.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index f39f91b..a0644b7 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -26,7 +26,7 @@ if Config.use_lxml:
         """Makes an ElementTree element handling namespaces in the way
         appropriate for the ElementTree implementation in use.
         """
-        elem = ElementTree.Element(tag, {ns_prefix: ns_uri}, attrib, **extra)
+        elem = ElementTree.Element(tag, attrib, {ns_prefix: ns_uri}, **extra)
         return elem
 
     def serialiseIfElementTree(obj):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index fcaf17b..630849d 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -384,7 +384,7 @@ class AttributeElementTree(Attribute):
                                  Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME))
             valueElem = etree.makeEtreeElement(valueTag,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
-                               Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME)
+                               XacmlContextBase.XACML_2_0_CONTEXT_NS)
             valueElem.text = attributeValue.value
             elem.append(valueElem)
             ### TODO AttributeValue is a sequence of xs:any with xs:anyAttribute
-- 
2.43.0


From f723794bc3d03f42bd80fee985b3fb2438a298d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 12/53] fix: serialise the category of a subject

---
 ndg/xacml/parsers/etree/context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 630849d..6cc26d7 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -141,6 +141,9 @@ class SubjectElementTree(Subject):
                                XacmlContextBase.XACML_2_0_CONTEXT_NS_PREFIX,
                                XacmlContextBase.XACML_2_0_CONTEXT_NS)
 
+        if subject.subjectCategory is not None:
+            elem.set(cls.SUBJECT_CATEGORY_ATTRIB_NAME, subject.subjectCategory)
+
         for attribute in subject.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
             elem.append(attributeElem)
-- 
2.43.0


From e914e14beab1eeb5c7c58efa6b369d59e155247c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:18 +0000
Subject: [PATCH 13/53] fix: do not move the resource content when serialising
 a resource

---
 ndg/xacml/parsers/etree/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 6cc26d7..813d901 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -9,6 +9,7 @@ __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 
+import copy
 import logging
 log = logging.getLogger(__name__)
 
@@ -209,7 +210,8 @@ class ResourceElementTree(Resource):
             if not ElementTree.iselement(resource.resourceContent):
                 raise TypeError("Expecting ElementTree element got %r" %
                                                 type(resource.resourceContent))
-            elem.append(resource.resourceContent)
+            # An element may only have one parent, so leave the original in place
+            elem.append(copy.deepcopy(resource.resourceContent))
 
         for attribute in resource.attributes:
             attributeElem = AttributeElementTree.toXML(attribute)
-- 
2.43.0


From 1e2d6c6bb6d67b46be6324db772b654744a72500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 14/53] fix: do not truncate text content at a comment or
 processing instruction

---
 ndg/xacml/parsers/etree/__init__.py             | 13 +++++++++++++
 ndg/xacml/parsers/etree/attributevaluereader.py |  7 ++++---
 ndg/xacml/parsers/etree/context.py              |  8 +++++---
 ndg/xacml/parsers/etree/policydefaultsreader.py |  5 +++--
 ndg/xacml/parsers/etree/policyreader.py         |  8 +++++---
 ndg/xacml/parsers/etree/policysetreader.py      | 12 +++++++-----
 ndg/xacml/parsers/etree/rulereader.py           |  8 +++++---
 ndg/xacml/utils/xpath_selector.py               |  6 ++++--
 8 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index a0644b7..893e5bc 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -66,6 +66,19 @@ def getElementChildren(element):
             continue
         yield childElem
 
+def getElementText(element):
+    """Text content of an element up to its first child element.  The element's
+    text attribute stops at the first comment or processing instruction where
+    these are included in the tree.
+    """
+    text = element.text
+    for child in element:
+        if isinstance(child.tag, str):
+            break
+        if child.tail is not None:
+            text = (text or '') + child.tail
+    return text
+
 
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 08903c1..43c4e6a 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, getElementText
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,11 +90,12 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
-        if elem.text is None:
+        text = getElementText(elem)
+        if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
                                 AttributeValueReader.TYPE.ELEMENT_LOCAL_NAME) 
             
-        attributeValue.value = elem.text
+        attributeValue.value = text
 
         
 class ETreeDataTypeReaderClassMap(VettedDict):
diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 813d901..910779f 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -29,7 +29,8 @@ from ndg.xacml.core.context.result import Decision, Result
 from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 
 
 class RequestElementTree(Request):
@@ -429,7 +430,8 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
-                attributeValue = AttributeValueClass(childElem.text)
+                attributeValue = AttributeValueClass(
+                                                getElementText(childElem))
                 attribute.attributeValues.append(attributeValue)
 
             else:
@@ -610,6 +612,6 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
-        decision.value = elem.text
+        decision.value = getElementText(elem)
 
         return decision
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 7c3f806..73628c0 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -12,7 +12,8 @@ __revision__ = "$Id$"
 from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -58,7 +59,7 @@ class PolicyDefaultsReader(ETreeAbstractReader):
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
-        xpathVersion = childElems[0].text 
+        xpathVersion = getElementText(childElems[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
                                 'PolicyDefaults element' % 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index 1031de4..fec160c 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.rule import Rule
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
     
@@ -104,8 +105,9 @@ class PolicyReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policy.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policy.description = description.strip()
                     
             elif localName == xacmlType.POLICY_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index eba8feb..978cf21 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -15,7 +15,8 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -88,8 +89,9 @@ class PolicySetReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    policySet.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    policySet.description = description.strip()
 
             elif localName == xacmlType.POLICY_SET_DEFAULTS_LOCAL_NAME:
                 PolicyDefaultsReader = ReaderFactory.getReader(PolicyDefaults)
@@ -123,7 +125,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
-                policyIdReference = childElem.text
+                policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
 
@@ -133,7 +135,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
-                policySetIdReference = childElem.text
+                policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index 5fdcce6..a17d099 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.rule import Rule, Effect
 from ndg.xacml.core.condition import Condition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementChildren
+from ndg.xacml.parsers.etree import (QName, getElementChildren,
+                                     getElementText)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -66,8 +67,9 @@ class RuleReader(ETreeAbstractReader):
             localName = QName.getLocalPart(childElem.tag)
             
             if localName == xacmlType.DESCRIPTION_LOCAL_NAME:
-                if childElem.text is not None:
-                    rule.description = childElem.text.strip()
+                description = getElementText(childElem)
+                if description is not None:
+                    rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
                 ConditionReader = ReaderFactory.getReader(Condition)
diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index f8d7bc9..4d063ef 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -12,6 +12,8 @@ from abc import ABCMeta, abstractmethod
 from ndg.xacml import Config, importElementTree
 ElementTree = importElementTree()
 
+from ndg.xacml.parsers.etree import getElementText
+
 class XPathSelectorInterface(object, metaclass=ABCMeta):
     """Interface for XPath selectors.
     """
@@ -70,7 +72,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(m.text)
+                    returnList.append(getElementText(m))
                 else:
                     returnList.append(m.__str__())
             return returnList
@@ -90,4 +92,4 @@ class EtreeXPathSelector(XPathSelectorInterface):
             else:
                 relPath = path
             elems = self.contextElem.findall(relPath)
-            return [e.text for e in elems]
+            return [getElementText(e) for e in elems]
-- 
2.43.0


From cc3a6fbffccf526123c5b60721d4e3e17ea75518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 15/53] fix: read an empty attribute value in a request as an
 empty string

---
 ndg/xacml/parsers/etree/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 910779f..250aaeb 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -430,8 +430,9 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
+                # An element without any text has an empty value
                 attributeValue = AttributeValueClass(
-                                                getElementText(childElem))
+                                            getElementText(childElem) or '')
                 attribute.attributeValues.append(attributeValue)
 
             else:
-- 
2.43.0


From f90c1ea79955f4d5cfe06f1331bac51f2f556127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 16/53] fix: report an unexpected child of a match or condition
 as a parse error

---
 ndg/xacml/parsers/etree/conditionreader.py | 5 +++--
 ndg/xacml/parsers/etree/matchreader.py     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 1692223..7d1c529 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -61,9 +61,10 @@ class ConditionReader(ETreeAbstractReader):
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
             condition.expression = ApplyReader.parse(subElem, common)
         else:
-            raise XMLParseError('Expecting %r Condition sub-element not '
+            raise XMLParseError('Expecting %r Condition sub-element; %r not '
                                 'recognised' %
-                                xacmlType.EXPRESSION_ELEMENT_LOCAL_NAME)
+                                (xacmlType.APPLY_ELEMENT_LOCAL_NAME,
+                                 subElemlocalName))
             
         
    
diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 9470afc..f1ee494 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -116,7 +116,7 @@ class MatchReaderBase(ETreeAbstractReader):
             else:
                 raise XMLParseError("XACML %r child element name %r not "
                                     "recognised" % 
-                                    (xacmlType.MATCH_TYPE.ELEMENT_LOCAL_NAME,
+                                    (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
                     
         return match
-- 
2.43.0


From 26f4ffe9ad5d6621de972b18954d5cf5def16a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 17/53] fix: keep the items of a UniqList unique when extending
 it

---
 ndg/xacml/utils/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 79be001..bf791ae 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -25,15 +25,16 @@ class UniqList(list):
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).extend([i for i in iter if i not in self])
+        for i in list(iter):
+            self.append(i)
         
     def __iadd__(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
         @type iter: iterable type
         """
-        return super(UniqList, self).__iadd__([i for i in iter 
-                                               if i not in self])
+        self.extend(iter)
+        return self
          
     def append(self, item):
         """Add an item to the list
-- 
2.43.0


From d351815a97a18fea361a1fb632322216fe66828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 18/53] fix: do not lose the items of an iterator when
 extending a TypedList

---
 ndg/xacml/utils/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index bf791ae..800cc38 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -86,6 +86,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # The input may be an iterator which can only be consumed once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
@@ -99,6 +101,8 @@ class TypedList(list):
         @type iter: iterable type
         @raise TypeError: input item doesn't match list type
         """
+        # The input may be an iterator which can only be consumed once
+        iter = list(iter)
         for i in iter:
             if not isinstance(i, self.__elementType):
                 raise TypeError("List items must be of type %s" % 
-- 
2.43.0


From aab8b9993f91efe3a854352b99e4f08cbbd08457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 19/53] fix: return the default from VettedDict.get for a
 missing key

---
 ndg/xacml/core/functions/__init__.py | 2 +-
 ndg/xacml/utils/__init__.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index 0a62e6e..f151eba 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -749,7 +749,7 @@ class FunctionMap(VettedDict):
         @return: function class
         @rtype: ndg.xacml.core.functions.AbstractFunction / NotImplemented
         """
-        functionClass = VettedDict.get(self, key, *arg)
+        functionClass = VettedDict.get(self, key)
         if functionClass is None:
             self.loadFunction(key)
             return VettedDict.get(self, key, *arg)    
diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index 800cc38..fca2f85 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -245,9 +245,9 @@ class VettedDict(MutableMapping):
         if key in self.__map:
             return self.__map[key]
         
-        elif len(arg) > 1:
+        elif len(arg) > 0:
             # Default value set
-            return arg[1]
+            return arg[0]
         else:
             return None
           
-- 
2.43.0


From e0bc3b2a3eb17ac1394f9d8d047c21a09c6a2d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 20/53] fix: raise KeyError for an unknown key in
 RestrictedKeyNamesDict.update

---
 ndg/xacml/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index fca2f85..b5721e0 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -157,7 +157,7 @@ class RestrictedKeyNamesDict(dict):
                 if k not in self.__keyNames:
                     raise KeyError('Key name "%s" not recognised.  Valid '
                                    'key names are: %s' % 
-                                   self.__keyNames)
+                                   (k, self.__keyNames))
         
         dict.update(self, d, **kw)
         
-- 
2.43.0


From 023f37786179bc12297b9f44aefb7fc4b32111d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 21/53] fix: escape text and attribute values when pretty
 printing

---
 ndg/xacml/utils/etree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index 2401f81..fb73526 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -27,6 +27,7 @@ except ImportError:
     warnings.warn(c14nWarning)
     
 from io import StringIO
+from xml.sax.saxutils import escape, quoteattr
 
 
 def canonicalize(elem, **kw):
@@ -128,7 +129,8 @@ class _PrettyPrint(object):
                     nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
                     self.declaredNss.append(attrNamespace)
                 
-            strAttribs.append('%s %s="%s"' % (nsDeclaration, attr, attrVal))
+            strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
+                                            quoteattr(attrVal)))
             
         strAttrib = ''.join(strAttribs)
         
@@ -147,7 +149,7 @@ class _PrettyPrint(object):
             self.declaredNss.append(namespace)
             
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
-                                   _PrettyPrint.estrip(elem.text))
+                                   escape(_PrettyPrint.estrip(elem.text)))
         
         children = len(elem)
         if children:
@@ -157,7 +159,7 @@ class _PrettyPrint(object):
                 result += '\n'+ _prettyPrint(child, indent=indent+space) 
                 
             result += '\n%s%s</%s>' % (indent,
-                                     _PrettyPrint.estrip(child.tail),
+                                     escape(_PrettyPrint.estrip(child.tail)),
                                      tag)
         else:
             result += '</%s>' % tag
-- 
2.43.0


From d500e04bf4721906cfd482b080414569bbc56681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 22/53] fix: enable pickling and copying of a TypedList which
 has items

---
 ndg/xacml/utils/__init__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index b5721e0..bba2222 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -63,6 +63,12 @@ class TypedList(list):
         self.__elementType = elementType
         super(TypedList, self).__init__(*arg, **kw)
 
+    def __reduce__(self):
+        """Enable pickling and copying: the element type must be known before 
+        any items are added
+        """
+        return self.__class__, (self.__elementType, list(self))
+
     def __repr__(self):
         """@return: represent instance giving type information about the 
         elements
-- 
2.43.0


From bfbcaf6abc7cee2c0dec7585386b8f414f9e2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 23/53] fix: enable pickling of attribute values

---
 ndg/xacml/core/attributevalue.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attributevalue.py b/ndg/xacml/core/attributevalue.py
index 81b6dd5..d33d624 100644
--- a/ndg/xacml/core/attributevalue.py
+++ b/ndg/xacml/core/attributevalue.py
@@ -212,6 +212,11 @@ class AttributeValue(Expression):
             
         return _dict
 
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__'''
+        for attr, val in list(attrDict.items()):
+            setattr(self, attr, val)
+
 
 class AttributeValueClassMap(VettedDict):
     """Specialised dictionary to hold mappings of XML attribute type URIs to 
@@ -279,9 +284,13 @@ class AttributeValueClassFactory(object):
         _identifier = AttributeValue.TYPE_URI_MAP[_typeName]
     
         _className = _typeName + AttributeValue.CLASS_NAME_SUFFIX               
-        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier}
+        _classVars = {'TYPE': _type, 'IDENTIFIER': _identifier, 
+                      '__module__': __name__}
         
         _attributeValueClass = type(_className, (AttributeValue, ), _classVars)
+        
+        # Instances can only be pickled if the class can be found by name
+        globals()[_className] = _attributeValueClass
         AttributeValue.register(_attributeValueClass)
         IDENTIFIER2CLASS_MAP[_identifier] = _attributeValueClass
     
-- 
2.43.0


From 3f632c4b78a36cd604176ddb01a4576f6d02ea20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 24/53] fix: enable unpickling of request attributes

---
 ndg/xacml/core/attribute.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/attribute.py b/ndg/xacml/core/attribute.py
index 936c531..a59baa2 100644
--- a/ndg/xacml/core/attribute.py
+++ b/ndg/xacml/core/attribute.py
@@ -146,7 +146,7 @@ class Attribute(XacmlCoreBase):
         @return: class instance attributes dictionary
         @rtype: dict
         '''
-        _dict = {}
+        _dict = super(Attribute, self).__getstate__()
         for attrName in Attribute.__slots__:
             # Ugly hack to allow for derived classes setting private member
             # variables
@@ -156,3 +156,8 @@ class Attribute(XacmlCoreBase):
             _dict[attrName] = getattr(self, attrName)
             
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Explicit implementation needed with __slots__'''
+        for attr, val in list(attrDict.items()):
+            setattr(self, attr, val)
-- 
2.43.0


From af4f1ab58734f47508fd93db7f5c6fcade5a1e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 25/53] fix: pickle the category of a subject

---
 ndg/xacml/core/context/subject.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/core/context/subject.py b/ndg/xacml/core/context/subject.py
index 8f321e2..a17e4d5 100644
--- a/ndg/xacml/core/context/subject.py
+++ b/ndg/xacml/core/context/subject.py
@@ -56,4 +56,21 @@ class Subject(RequestChildBase):
         self.__subjectCategory = value   
 
     subjectCategory = property(_get_subjectCategory, _set_subjectCategory, None, 
-                               "Subject category")
\ No newline at end of file
+                               "Subject category")
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(Subject, self).__getstate__()
+        for attrName in Subject.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_Subject" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
+            
+        return _dict
-- 
2.43.0


From bad5ee1684a7f7440f32abd60da2778ac2746f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 26/53] fix: enable pickling of a request parsed from XML

---
 ndg/xacml/core/context/request.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ndg/xacml/core/context/request.py b/ndg/xacml/core/context/request.py
index 55b6420..41eae87 100644
--- a/ndg/xacml/core/context/request.py
+++ b/ndg/xacml/core/context/request.py
@@ -20,6 +20,7 @@ from ndg.xacml.core.context.action import Action
 from ndg.xacml.core.context.environment import Environment
 from ndg.xacml.core.context.handlerinterface import CtxHandlerInterface
 from ndg.xacml.utils.xpath_selector import XPathSelectorInterface
+import ndg.xacml.parsers.etree as etree
 
 
 class Request(XacmlContextBase):
@@ -185,4 +186,13 @@ class Request(XacmlContextBase):
                 
             _dict[attrName] = getattr(self, attrName)
             
+        # A request parsed from XML refers to its XML element
+        for attrName, val in list(_dict.items()):
+            _dict[attrName] = etree.serialiseIfElementTree(val)
+            
         return _dict
+
+    def __setstate__(self, attrDict):
+        '''Restore any XML element serialised for pickling'''
+        for attrName, val in list(attrDict.items()):
+            setattr(self, attrName, etree.deserialiseIfElementTree(val))
-- 
2.43.0


From f0169137ac898cd378966427e22cc1593541929e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 27/53] fix: check the type of items however they are added to
 a TypedList

---
 ndg/xacml/utils/__init__.py | 40 +++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index bba2222..cfe970e 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -62,6 +62,18 @@ class TypedList(list):
         """
         self.__elementType = elementType
         super(TypedList, self).__init__(*arg, **kw)
+        for item in self:
+            self.__checkItem(item)
+
+    def __checkItem(self, item):
+        """
+        @param item: candidate list item
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if not isinstance(item, self.__elementType):
+            raise TypeError("List items must be of type %s" % 
+                            (self.__elementType,))
 
     def __reduce__(self):
         """Enable pickling and copying: the element type must be known before 
@@ -128,6 +140,34 @@ class TypedList(list):
     
         return super(TypedList, self).append(item)
 
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: position to insert at
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        @raise TypeError: input item doesn't match list type
+        """
+        self.__checkItem(item)
+        super(TypedList, self).insert(index, item)
+
+    def __setitem__(self, index, value):
+        """Replace an item or a slice of items
+        @param index: position or slice to replace
+        @type index: int / slice
+        @param value: item or, for a slice, iterable of items
+        @type value: any
+        @raise TypeError: input item doesn't match list type
+        """
+        if isinstance(index, slice):
+            value = list(value)
+            for item in value:
+                self.__checkItem(item)
+        else:
+            self.__checkItem(value)
+            
+        super(TypedList, self).__setitem__(index, value)
+
 
 class RestrictedKeyNamesDict(dict):
     """Utility class for holding a constrained list of key names
-- 
2.43.0


From 313b3d9c905dc5048079c296a3173ed9b6ae1d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 28/53] fix: refuse unknown elements in the parts of a request

---
 ndg/xacml/parsers/etree/context.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 250aaeb..4f72ee2 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -178,6 +178,9 @@ class SubjectElementTree(Subject):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 subject.attributes.append(attribute)
+            else:
+                raise XMLParseError('XACML context Subject child element name '
+                                    '%r not recognised' % localName)
         return subject
 
 class ResourceElementTree(Resource):
@@ -246,6 +249,9 @@ class ResourceElementTree(Resource):
             elif localName == cls.RESOURCE_CONTENT_ELEMENT_LOCAL_NAME:
                 ### TODO Store resource content as subtree.
                 resource.resourceContent = childElem
+            else:
+                raise XMLParseError('XACML context Resource child element name '
+                                    '%r not recognised' % localName)
         return resource
 
 class ActionElementTree(Action):
@@ -299,6 +305,9 @@ class ActionElementTree(Action):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 action.attributes.append(attribute)
+            else:
+                raise XMLParseError('XACML context Action child element name '
+                                    '%r not recognised' % localName)
         return action
 
 class EnvironmentElementTree(Environment):
@@ -352,6 +361,9 @@ class EnvironmentElementTree(Environment):
             if localName == Attribute.ELEMENT_LOCAL_NAME:
                 attribute = AttributeElementTree.fromXML(childElem)
                 environment.attributes.append(attribute)
+            else:
+                raise XMLParseError('XACML context Environment child element name '
+                                    '%r not recognised' % localName)
         return environment
 
 class AttributeElementTree(Attribute):
-- 
2.43.0


From 5e3ed8f5d41078e5ff393486b8edf2fb2a060bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 29/53] fix: a match function whose result is not boolean is an
 error

---
 ndg/xacml/core/match.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/core/match.py b/ndg/xacml/core/match.py
index df168f0..e96f079 100644
--- a/ndg/xacml/core/match.py
+++ b/ndg/xacml/core/match.py
@@ -19,7 +19,8 @@ from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.core.functions import (FunctionMap, functionMap,
                                       UnsupportedStdFunctionError,
                                       UnsupportedFunctionError)
-from ndg.xacml.core.context.exceptions import XacmlContextError
+from ndg.xacml.core.context.exceptions import (XacmlContextError,
+                                               XacmlContextTypeError)
 
 
 class MatchBase(XacmlCoreBase):
@@ -327,9 +328,17 @@ class MatchBase(XacmlCoreBase):
         
         for i, requestAttributeValue in enumerate(requestAttributeValues):
             
-            attrMatchStatusValues[i] = matchFunction.evaluate(
-                                                         matchAttributeValue,
-                                                         requestAttributeValue)
+            result = matchFunction.evaluate(matchAttributeValue,
+                                            requestAttributeValue)
+            if isinstance(result, AttributeValue):
+                result = result.value
+                
+            if not isinstance(result, bool):
+                raise XacmlContextTypeError('Expecting %r type result for '
+                                            'match function %r; got %r' %
+                                            (bool, self.matchId, type(result)))
+                
+            attrMatchStatusValues[i] = result
             if log.getEffectiveLevel() <= logging.DEBUG:
                 if attrMatchStatusValues[i] == True:
                     log.debug('Target attribute value %r matches request '
-- 
2.43.0


From 6f79c482abb435c94dbfbf8f4653608e8a98b465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 30/53] fix: round refuses a boolean

---
 ndg/xacml/core/functions/v1/round.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/core/functions/v1/round.py b/ndg/xacml/core/functions/v1/round.py
index 75e1a3d..3ac716d 100644
--- a/ndg/xacml/core/functions/v1/round.py
+++ b/ndg/xacml/core/functions/v1/round.py
@@ -29,6 +29,10 @@ class Round(AbstractFunction):
         @rtype: float
         @raise TypeError: incorrect type for input
         """
+        if isinstance(num, bool):
+            raise XacmlContextTypeError('Round function: expecting a number; '
+                                        'got %r' % type(num))
+        
         try:
             return round(num)
         except TypeError as e:
-- 
2.43.0


From 4e9be9a2da030b0276cf88b51963757a6ebe9788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 31/53] fix: a function factory only produces the functions it
 declares

---
 ndg/xacml/core/functions/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ndg/xacml/core/functions/__init__.py b/ndg/xacml/core/functions/__init__.py
index f151eba..2c8f6c6 100644
--- a/ndg/xacml/core/functions/__init__.py
+++ b/ndg/xacml/core/functions/__init__.py
@@ -500,6 +500,10 @@ class FunctionClassFactoryBase(FunctionClassFactoryInterface):
         @rtype: AtLeastOneMemberOfBase derived type or None if no match is 
         found
         """
+        # The factory can only produce classes for the identifiers it declares
+        if identifier not in self.__class__.FUNCTION_NAMES:
+            return None
+        
         # Check the cache first
         functionClass = self.__map.get(identifier)
         if functionClass is None:
-- 
2.43.0


From 7656d050f64944aadda67c91f321234d923d731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 32/53] fix: initialise the description of a rule

---
 ndg/xacml/core/rule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ndg/xacml/core/rule.py b/ndg/xacml/core/rule.py
index 4f415ca..27b3396 100644
--- a/ndg/xacml/core/rule.py
+++ b/ndg/xacml/core/rule.py
@@ -234,6 +234,7 @@ class Rule(XacmlCoreBase):
         self.__effect = None
         self.__target = None
         self.__condition = None
+        self.__description = None
         
     @property
     def target(self):
-- 
2.43.0


From c74003e9f89396ffc257a999e0385e3e6ac02bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 33/53] fix: refuse a second target, condition, designator or
 selector

---
 ndg/xacml/parsers/etree/matchreader.py     | 10 ++++++++++
 ndg/xacml/parsers/etree/policyreader.py    |  4 ++++
 ndg/xacml/parsers/etree/policysetreader.py |  4 ++++
 ndg/xacml/parsers/etree/rulereader.py      |  8 ++++++++
 4 files changed, 26 insertions(+)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index f1ee494..7212e89 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -97,6 +97,11 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                if match.attributeDesignator is not None:
+                    raise XMLParseError("More than one %r element found in %r"
+                                        % (localName,
+                                           xacmlType.ELEMENT_LOCAL_NAME))
+
                 match.attributeDesignator = attributeDesignatorReaderType.parse(
                                                             childElem, common)
                         
@@ -108,6 +113,11 @@ class MatchReaderBase(ETreeAbstractReader):
                              attributeDesignatorType.ELEMENT_LOCAL_NAME,
                              AttributeSelector.ELEMENT_LOCAL_NAME))
                     
+                if match.attributeSelector is not None:
+                    raise XMLParseError("More than one %r element found in %r"
+                                        % (localName,
+                                           xacmlType.ELEMENT_LOCAL_NAME))
+
                 AttributeSelectorReader = ReaderFactory.getReader(
                                                             AttributeSelector)
                 
diff --git a/ndg/xacml/parsers/etree/policyreader.py b/ndg/xacml/parsers/etree/policyreader.py
index fec160c..18e567a 100644
--- a/ndg/xacml/parsers/etree/policyreader.py
+++ b/ndg/xacml/parsers/etree/policyreader.py
@@ -115,6 +115,10 @@ class PolicyReader(ETreeAbstractReader):
                                                                    common)
                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policy.target is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Policy" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policy.target = TargetReader.parse(childElem, common)
              
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 978cf21..2915479 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -100,6 +100,10 @@ class PolicySetReader(ETreeAbstractReader):
                                                                     common)
 
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if policySet.target is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "PolicySet" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 policySet.target = TargetReader.parse(childElem, common)
 
diff --git a/ndg/xacml/parsers/etree/rulereader.py b/ndg/xacml/parsers/etree/rulereader.py
index a17d099..f68b685 100644
--- a/ndg/xacml/parsers/etree/rulereader.py
+++ b/ndg/xacml/parsers/etree/rulereader.py
@@ -72,10 +72,18 @@ class RuleReader(ETreeAbstractReader):
                     rule.description = description.strip()
                     
             elif localName == Condition.ELEMENT_LOCAL_NAME:
+                if rule.condition is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Rule" % localName)
+
                 ConditionReader = ReaderFactory.getReader(Condition)
                 rule.condition = ConditionReader.parse(childElem, common)
                                    
             elif localName == Target.ELEMENT_LOCAL_NAME:
+                if rule.target is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Rule" % localName)
+
                 TargetReader = ReaderFactory.getReader(Target)
                 rule.target = TargetReader.parse(childElem, common)
             
-- 
2.43.0


From 8ffc6f31231a51cabb268ca0aa070eec6fb3cb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:17 +0000
Subject: [PATCH 34/53] fix: refuse a match without a value or without a
 designator or selector

---
 ndg/xacml/parsers/etree/matchreader.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ndg/xacml/parsers/etree/matchreader.py b/ndg/xacml/parsers/etree/matchreader.py
index 7212e89..d5456aa 100644
--- a/ndg/xacml/parsers/etree/matchreader.py
+++ b/ndg/xacml/parsers/etree/matchreader.py
@@ -129,6 +129,17 @@ class MatchReaderBase(ETreeAbstractReader):
                                     (xacmlType.ELEMENT_LOCAL_NAME,
                                      localName))
                     
+        if match.attributeValue is None:
+            raise XMLParseError("No %r element found in %r" %
+                                (xacmlType.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
+        if match.attributeDesignator is None and match.attributeSelector is None:
+            raise XMLParseError("No %r or %r element found in %r" %
+                                (attributeDesignatorType.ELEMENT_LOCAL_NAME,
+                                 AttributeSelector.ELEMENT_LOCAL_NAME,
+                                 xacmlType.ELEMENT_LOCAL_NAME))
+
         return match
 
     
-- 
2.43.0


From 61de5fd1b36522c1969a79ab0c8f66553523c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 35/53] fix: refuse child elements in values, references,
 designators and selectors

---
 ndg/xacml/parsers/etree/__init__.py                  | 12 ++++++++++++
 ndg/xacml/parsers/etree/attributedesignatorreader.py |  3 ++-
 ndg/xacml/parsers/etree/attributeselectorreader.py   |  3 ++-
 ndg/xacml/parsers/etree/attributevaluereader.py      |  4 +++-
 ndg/xacml/parsers/etree/policydefaultsreader.py      |  3 ++-
 ndg/xacml/parsers/etree/policysetreader.py           |  4 +++-
 6 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index 893e5bc..02406bf 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -14,6 +14,7 @@ log = logging.getLogger(__name__)
 import re
 
 from ndg.xacml import Config, importElementTree
+from ndg.xacml.parsers import XMLParseError
 ElementTree = importElementTree()
 
 class SerialisedElementTree(str):
@@ -79,6 +80,17 @@ def getElementText(element):
             text = (text or '') + child.tail
     return text
 
+def checkNoElementChildren(element):
+    """Refuse child elements in an element which can only have text or no
+    content at all.
+
+    @raise XMLParseError: the element has a child element
+    """
+    for childElem in getElementChildren(element):
+        raise XMLParseError("%r child element name %r not recognised" %
+                            (QName.getLocalPart(element.tag),
+                             QName.getLocalPart(childElem.tag)))
+
 
 # Generic ElementTree Helper classes
 class QName(ElementTree.QName):
diff --git a/ndg/xacml/parsers/etree/attributedesignatorreader.py b/ndg/xacml/parsers/etree/attributedesignatorreader.py
index 133441e..7ecb1f1 100644
--- a/ndg/xacml/parsers/etree/attributedesignatorreader.py
+++ b/ndg/xacml/parsers/etree/attributedesignatorreader.py
@@ -11,7 +11,7 @@ __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = "$Id$"
 from ndg.xacml.utils import str2Bool
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, checkNoElementChildren
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -33,6 +33,7 @@ class AttributeDesignatorReaderBase(ExpressionReader):
         @rtype: ndg.xacml.core.attributedesignator.AttributeDesignator
         """
         xacmlType = self.__class__.TYPE
+        checkNoElementChildren(elem)
         
         # Unpack additional *required* attributes from top-level element
         attributeValues = []
diff --git a/ndg/xacml/parsers/etree/attributeselectorreader.py b/ndg/xacml/parsers/etree/attributeselectorreader.py
index 60b7b3d..b2afaf3 100644
--- a/ndg/xacml/parsers/etree/attributeselectorreader.py
+++ b/ndg/xacml/parsers/etree/attributeselectorreader.py
@@ -12,7 +12,7 @@ __revision__ = "$Id$"
 from ndg.xacml.utils import str2Bool
 from ndg.xacml.core.attributeselector import AttributeSelector
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName
+from ndg.xacml.parsers.etree import QName, checkNoElementChildren
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 
 
@@ -41,6 +41,7 @@ class AttributeSelectorReader(ExpressionReader):
         """
         
         xacmlType = self.__class__.TYPE
+        checkNoElementChildren(elem)
         
         localName = QName.getLocalPart(elem.tag)
         if localName != xacmlType.ELEMENT_LOCAL_NAME:
diff --git a/ndg/xacml/parsers/etree/attributevaluereader.py b/ndg/xacml/parsers/etree/attributevaluereader.py
index 43c4e6a..1971b71 100644
--- a/ndg/xacml/parsers/etree/attributevaluereader.py
+++ b/ndg/xacml/parsers/etree/attributevaluereader.py
@@ -12,7 +12,8 @@ __revision__ = "$Id$"
 from ndg.xacml.core.attributevalue import (AttributeValue, 
                                            AttributeValueClassFactory)
 from ndg.xacml.parsers import XMLParseError
-from ndg.xacml.parsers.etree import QName, getElementText
+from ndg.xacml.parsers.etree import (QName, getElementText,
+                                     checkNoElementChildren)
 from ndg.xacml.parsers.etree.expressionreader import ExpressionReader
 from ndg.xacml.utils import VettedDict
 
@@ -90,6 +91,7 @@ class AttributeValueReader(ExpressionReader):
 class ETreeDataTypeReaderBase(object):  
     @classmethod
     def parse(cls, elem, attributeValue):
+        checkNoElementChildren(elem)
         text = getElementText(elem)
         if text is None:
             raise XMLParseError('No attribute value element found parsing %r' % 
diff --git a/ndg/xacml/parsers/etree/policydefaultsreader.py b/ndg/xacml/parsers/etree/policydefaultsreader.py
index 73628c0..1fc0cea 100644
--- a/ndg/xacml/parsers/etree/policydefaultsreader.py
+++ b/ndg/xacml/parsers/etree/policydefaultsreader.py
@@ -13,7 +13,7 @@ from ndg.xacml.core.policydefaults import PolicyDefaults
 from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.parsers import XMLParseError
 from ndg.xacml.parsers.etree import (QName, getElementChildren,
-                                     getElementText)
+                                     getElementText, checkNoElementChildren)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 
 
@@ -59,6 +59,7 @@ class PolicyDefaultsReader(ETreeAbstractReader):
                                 'PolicyDefaults element' % 
                                 xacmlType.XPATH_VERSION_ELEMENT_NAME)
         
+        checkNoElementChildren(childElems[0])
         xpathVersion = getElementText(childElems[0])
         if xpathVersion is None:
             raise XMLParseError('No %r child element value set for '
diff --git a/ndg/xacml/parsers/etree/policysetreader.py b/ndg/xacml/parsers/etree/policysetreader.py
index 2915479..7b55d28 100644
--- a/ndg/xacml/parsers/etree/policysetreader.py
+++ b/ndg/xacml/parsers/etree/policysetreader.py
@@ -16,7 +16,7 @@ from ndg.xacml.core.policyset import PolicySet
 from ndg.xacml.core.variabledefinition import VariableDefinition
 from ndg.xacml.core.target import Target
 from ndg.xacml.parsers.etree import (QName, getElementChildren,
-                                     getElementText)
+                                     getElementText, checkNoElementChildren)
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
 from ndg.xacml.parsers.etree.factory import ReaderFactory
 
@@ -129,6 +129,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policy)
 
             elif localName == Policy.POLICY_ID_REFERENCE:
+                checkNoElementChildren(childElem)
                 policyIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicy(common,
                                                             policyIdReference))
@@ -139,6 +140,7 @@ class PolicySetReader(ETreeAbstractReader):
                 policySet.policies.append(policySetChild)
 
             elif localName == PolicySet.POLICY_SET_ID_REFERENCE:
+                checkNoElementChildren(childElem)
                 policySetIdReference = getElementText(childElem)
                 policySet.policies.append(self._getReferencedPolicySet(common,
                                                         policySetIdReference))
-- 
2.43.0


From 9c822e29c1af6fa82f661174a2fe5407148aca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 36/53] fix: refuse a second action, environment or resource
 content in a request

---
 ndg/xacml/parsers/etree/context.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 4f72ee2..092a99f 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -110,9 +110,17 @@ class RequestElementTree(Request):
                 request.resources.append(resource)
 
             elif localName == Action.ELEMENT_LOCAL_NAME:
+                if request.action is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Request" % localName)
+
                 request.action = ActionElementTree.fromXML(childElem)
 
             elif localName == Environment.ELEMENT_LOCAL_NAME:
+                if request.environment is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Request" % localName)
+
                 request.environment = EnvironmentElementTree.fromXML(childElem)
 
             else:
@@ -247,6 +255,10 @@ class ResourceElementTree(Resource):
                 attribute = AttributeElementTree.fromXML(childElem)
                 resource.attributes.append(attribute)
             elif localName == cls.RESOURCE_CONTENT_ELEMENT_LOCAL_NAME:
+                if resource.resourceContent is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Resource" % localName)
+
                 ### TODO Store resource content as subtree.
                 resource.resourceContent = childElem
             else:
-- 
2.43.0


From dd82ea4cdac6ce5ffc94fe0f948291a7f6960057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 37/53] fix: refuse a result without exactly one decision

---
 ndg/xacml/parsers/etree/context.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 092a99f..7fcb702 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -582,6 +582,10 @@ class ResultElementTree(Result):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Decision.ELEMENT_LOCAL_NAME:
+                if result.decision is not None:
+                    raise XMLParseError("More than one %r element found in "
+                                        "Result" % localName)
+
                 decision = DecisionElementTree.fromXML(childElem)
                 result.decision = decision
             else:
@@ -590,6 +594,10 @@ class ResultElementTree(Result):
 
             ### TODO Handle status and obligations
 
+        if result.decision is None:
+            raise XMLParseError('No %r element found in Result' %
+                                Decision.ELEMENT_LOCAL_NAME)
+
         return result
 
 class DecisionElementTree(Decision):
-- 
2.43.0


From f05bf536a1d88674d600961a74bdc707c818bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 38/53] fix: refuse child elements in the values of a request
 and in a decision

---
 ndg/xacml/parsers/etree/context.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/context.py b/ndg/xacml/parsers/etree/context.py
index 7fcb702..a155332 100644
--- a/ndg/xacml/parsers/etree/context.py
+++ b/ndg/xacml/parsers/etree/context.py
@@ -30,7 +30,8 @@ from ndg.xacml.core.context.subject import Subject
 from ndg.xacml.parsers import XMLParseError
 import ndg.xacml.parsers.etree as etree
 from ndg.xacml.parsers.etree import (QName, getElementChildren,
-                                     getElementText)
+                                     getElementText,
+                                     checkNoElementChildren)
 
 
 class RequestElementTree(Request):
@@ -454,6 +455,7 @@ class AttributeElementTree(Attribute):
             localName = QName.getLocalPart(childElem.tag)
 
             if localName == Attribute.ATTRIBUTE_VALUE_ELEMENT_LOCAL_NAME:
+                checkNoElementChildren(childElem)
                 # An element without any text has an empty value
                 attributeValue = AttributeValueClass(
                                             getElementText(childElem) or '')
@@ -645,6 +647,7 @@ class DecisionElementTree(Decision):
 
         decision = Decision()
 
+        checkNoElementChildren(elem)
         decision.value = getElementText(elem)
 
         return decision
-- 
2.43.0


From 1370400bad94ab1eee1831ee916cabbe6d3d26d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 39/53] fix: set the resource identifier given to
 Result.createInitialised

---
 ndg/xacml/core/context/result.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 1bb0b9e..0b95433 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -561,6 +561,9 @@ class Result(XacmlContextBase):
         result.decision.value = decision
         result.status = Status.createInitialised(**kw)
         
+        if resourceId:
+            result.resourceId = resourceId
+            
         if obligations is not None:
             result.obligations = obligations
             
-- 
2.43.0


From 3777cd50a10790e68dfe3ffd65324c32cd5fee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 40/53] fix: select each element once and in document order
 with the standard library ElementTree

---
 ndg/xacml/utils/xpath_selector.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 4d063ef..7990f58 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -91,5 +91,8 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 relPath = '.' + path
             else:
                 relPath = path
-            elems = self.contextElem.findall(relPath)
-            return [getElementText(e) for e in elems]
+            # findall() returns matches repeatedly and out of order when
+            # elements matched by a descendant step are nested.
+            elems = set(self.contextElem.findall(relPath))
+            return [getElementText(e) for e in self.contextElem.iter()
+                    if e in elems]
-- 
2.43.0


From 20c01932fab282c4cb35b8e174e9c087d1ca1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 41/53] fix: refuse an XPath expression that does not select
 nodes

---
 ndg/xacml/utils/xpath_selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 7990f58..79948be 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -67,6 +67,9 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 relPath = path
             find = ElementTree.ETXPath(relPath)
             elems = find(self.contextElem)
+            if not isinstance(elems, list):
+                raise ValueError("XPath expression %r does not select nodes" %
+                                 path)
             returnList = []
             for m in elems:
                 # Allow for XPath expression selecting element text or attribute
-- 
2.43.0


From bf6d0ba4e973164e3a6f176e25ed7b103fcad515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 42/53] fix: select the text of an empty element as an empty
 string

---
 ndg/xacml/utils/xpath_selector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/xpath_selector.py b/ndg/xacml/utils/xpath_selector.py
index 79948be..4986857 100644
--- a/ndg/xacml/utils/xpath_selector.py
+++ b/ndg/xacml/utils/xpath_selector.py
@@ -75,7 +75,7 @@ class EtreeXPathSelector(XPathSelectorInterface):
                 # Allow for XPath expression selecting element text or attribute
                 # values.
                 if hasattr(m, 'text'):
-                    returnList.append(getElementText(m))
+                    returnList.append(getElementText(m) or '')
                 else:
                     returnList.append(m.__str__())
             return returnList
@@ -97,5 +97,5 @@ class EtreeXPathSelector(XPathSelectorInterface):
             # findall() returns matches repeatedly and out of order when
             # elements matched by a descendant step are nested.
             elems = set(self.contextElem.findall(relPath))
-            return [getElementText(e) for e in self.contextElem.iter()
+            return [getElementText(e) or '' for e in self.contextElem.iter()
                     if e in elems]
-- 
2.43.0


From 7ddabdcbd7b32f6d35d32ee0f0c78541daedb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 43/53] fix: pickle the content of a result's status

---
 ndg/xacml/core/context/result.py | 34 ++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/ndg/xacml/core/context/result.py b/ndg/xacml/core/context/result.py
index 0b95433..7c0a0a3 100644
--- a/ndg/xacml/core/context/result.py
+++ b/ndg/xacml/core/context/result.py
@@ -110,6 +110,23 @@ class StatusCode(XacmlContextBase):
         self.__value = value
 
     value = property(fget=_getValue, fset=_setValue, doc="Status code value")
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(StatusCode, self).__getstate__()
+        for attrName in StatusCode.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_StatusCode" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
+            
+        return _dict
     
 
 class Status(XacmlContextBase): 
@@ -237,6 +254,23 @@ class Status(XacmlContextBase):
     statusDetail = property(fget=_getStatusDetail,
                             fset=_setStatusDetail,
                             doc="status message")
+
+    def __getstate__(self):
+        '''Enable pickling
+        
+        @return: object's attribute dictionary
+        @rtype: dict
+        '''
+        _dict = super(Status, self).__getstate__()
+        for attrName in Status.__slots__:
+            # Ugly hack to allow for derived classes setting private member
+            # variables
+            if attrName.startswith('__'):
+                attrName = "_Status" + attrName
+                
+            _dict[attrName] = getattr(self, attrName)
+            
+        return _dict
             
 
 class Decision(object):
-- 
2.43.0


From 0590b470412f806fc4947f70000e0dbf40c83959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:52 +0000
Subject: [PATCH 44/53] fix: restricted dictionary refuses unknown keys given
 to setdefault and |=, accepts pairs in update

---
 ndg/xacml/utils/__init__.py | 45 ++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index cfe970e..a56e8fc 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -192,20 +192,43 @@ class RestrictedKeyNamesDict(dict):
             
         dict.__setitem__(self, key, val)
 
-    def update(self, d, **kw):        
-        """@param d: dictionary to update from
-        @type d: dict
+    def __checkKeys(self, keys):
+        """
+        @param keys: candidate key names
+        @type keys: iterable
+        @raise KeyError: key name is not one of those set at initialisation
+        """
+        for k in keys:
+            if k not in self.__keyNames:
+                raise KeyError('Key name "%s" not recognised.  Valid '
+                               'key names are: %s' % 
+                               (k, self.__keyNames))
+
+    def update(self, *arg, **kw):        
+        """@param arg: dictionary or iterable of key value pairs to update from
+        @type arg: tuple
         @param kw: keywords to update dictionary with
         @type kw: dict
         """
-        for dictArg in (d, kw):
-            for k in dictArg:
-                if k not in self.__keyNames:
-                    raise KeyError('Key name "%s" not recognised.  Valid '
-                                   'key names are: %s' % 
-                                   (k, self.__keyNames))
-        
-        dict.update(self, d, **kw)
+        d = dict(*arg, **kw)
+        self.__checkKeys(d)
+        dict.update(self, d)
+
+    def __ior__(self, d):
+        """@param d: dictionary or iterable of key value pairs to update from
+        @type d: dict
+        """
+        self.update(d)
+        return self
+
+    def setdefault(self, key, *arg):
+        """@param key: key for item to set if not already present
+        @type key: any
+        @param arg: value to set if the key is not present
+        @type arg: tuple
+        """
+        self.__checkKeys((key,))
+        return dict.setdefault(self, key, *arg)
         
 
 _isIterable = lambda obj: getattr(obj, '__iter__', False)
-- 
2.43.0


From 3956f20c03e8fbfe99d3c748efe4ac553ca8654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 45/53] fix: unique list omits items already present however
 they are added

---
 ndg/xacml/utils/__init__.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ndg/xacml/utils/__init__.py b/ndg/xacml/utils/__init__.py
index a56e8fc..044e7a9 100644
--- a/ndg/xacml/utils/__init__.py
+++ b/ndg/xacml/utils/__init__.py
@@ -20,6 +20,25 @@ class UniqList(list):
     from the list
     """
     
+    def __init__(self, *arg):
+        """Initialise from an optional iterable
+        @param arg: iterable of initial items
+        @type arg: tuple
+        """
+        super(UniqList, self).__init__()
+        for iter in arg:
+            self.extend(iter)
+
+    def insert(self, index, item):
+        """Insert an item into the list
+        @param index: position to insert at
+        @type index: int
+        @param item: item to insert
+        @type item: any
+        """
+        if item not in self:
+            super(UniqList, self).insert(index, item)
+
     def extend(self, iter):
         """Extend a list with input iterable
         @param iter: iterable object
-- 
2.43.0


From 9ba7beae6fd69d6d9737381c0cd472deccb6310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 46/53] fix: element readers registered for Policy, PolicySet
 and Apply are used everywhere

---
 ndg/xacml/parsers/etree/applyreader.py      | 4 +++-
 ndg/xacml/parsers/etree/conditionreader.py  | 4 +++-
 ndg/xacml/parsers/etree/policybasereader.py | 8 +++++---
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ndg/xacml/parsers/etree/applyreader.py b/ndg/xacml/parsers/etree/applyreader.py
index fb273a9..adbb3ce 100644
--- a/ndg/xacml/parsers/etree/applyreader.py
+++ b/ndg/xacml/parsers/etree/applyreader.py
@@ -83,7 +83,9 @@ class ApplyReader(ETreeAbstractReader):
         for subElem in getElementChildren(elem):
             localName = QName.getLocalPart(subElem.tag)
             if localName == xacmlType.ELEMENT_LOCAL_NAME:
-                applyObj.expressions.append(ApplyReader.parse(subElem, common))
+                _ApplyReader = ReaderFactory.getReader(Apply)
+                applyObj.expressions.append(_ApplyReader.parse(subElem, 
+                                                               common))
              
             elif localName == AttributeValue.ELEMENT_LOCAL_NAME:
                 AttributeValueReader = ReaderFactory.getReader(AttributeValue) 
diff --git a/ndg/xacml/parsers/etree/conditionreader.py b/ndg/xacml/parsers/etree/conditionreader.py
index 7d1c529..7f89b1d 100644
--- a/ndg/xacml/parsers/etree/conditionreader.py
+++ b/ndg/xacml/parsers/etree/conditionreader.py
@@ -13,7 +13,8 @@ from ndg.xacml.core.condition import Condition
 from ndg.xacml.parsers import XMLParseError
 from ndg.xacml.parsers.etree import QName, getElementChildren
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
-from ndg.xacml.parsers.etree.applyreader import ApplyReader
+from ndg.xacml.parsers.etree.factory import ReaderFactory
+from ndg.xacml.core.apply import Apply
 
 
 class ConditionReader(ETreeAbstractReader):
@@ -59,6 +60,7 @@ class ConditionReader(ETreeAbstractReader):
         
         subElemlocalName = QName.getLocalPart(subElem.tag)
         if subElemlocalName == xacmlType.APPLY_ELEMENT_LOCAL_NAME:
+            ApplyReader = ReaderFactory.getReader(Apply)
             condition.expression = ApplyReader.parse(subElem, common)
         else:
             raise XMLParseError('Expecting %r Condition sub-element; %r not '
diff --git a/ndg/xacml/parsers/etree/policybasereader.py b/ndg/xacml/parsers/etree/policybasereader.py
index 4c42324..f7d882c 100644
--- a/ndg/xacml/parsers/etree/policybasereader.py
+++ b/ndg/xacml/parsers/etree/policybasereader.py
@@ -17,6 +17,7 @@ from ndg.xacml.parsers.etree import QName
 from ndg.xacml.parsers.etree.policyreader import PolicyReader
 from ndg.xacml.parsers.etree.policysetreader import PolicySetReader
 from ndg.xacml.parsers.etree.reader import ETreeAbstractReader
+from ndg.xacml.parsers.etree.factory import ReaderFactory
 
 
 class PolicyBaseReader(ETreeAbstractReader):
@@ -48,8 +49,9 @@ class PolicyBaseReader(ETreeAbstractReader):
                                 " of a XACML document",
                                 localName)
 
-        # Instantiate appropriate reader and parse the policy document.
-        rootElementReader = readerType()
-        policy = rootElementReader.processElement(elem, common)
+        # Parse the policy document with the appropriate reader, one registered
+        # with the factory takes precedence.
+        readerType = ReaderFactory.READER_CLASS_MAP.get(xacmlType, readerType)
+        policy = readerType.parse(elem, common)
 
         return policy
-- 
2.43.0


From 07656be7262ea831a8697d927225da58e28615d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 47/53] fix: import function and reader classes safely while
 other threads import them

---
 ndg/xacml/utils/factory.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index 86572d7..c5eaf4b 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -9,6 +9,7 @@ __copyright__ = "(C) 2010 Science and Technology Facilities Council"
 __license__ = "BSD - see LICENSE file in top-level directory"
 __contact__ = "Philip.Kershaw@stfc.ac.uk"
 __revision__ = '$Id$'
+import importlib
 import traceback
 import logging, os, sys
 log = logging.getLogger(__name__)
@@ -40,16 +41,9 @@ def importModuleObject(moduleName, objectName=None, objectType=None):
     if isinstance(objectName, str):
         objectName = [objectName]
     
-    module = __import__(_moduleName, globals(), locals(), [])
-    components = _moduleName.split('.')
-    try:
-        for component in components[1:]:
-            module = getattr(module, component)
-    except AttributeError:
-        raise AttributeError("Error importing %r: %s" %
-                             (objectName[0], traceback.format_exc()))
-
-    importedObject = module
+    # Nb. a module may not be an attribute of its parent package yet when
+    # another thread has only just imported it
+    importedObject = importlib.import_module(_moduleName)
     for i in objectName:
         importedObject = getattr(importedObject, i)
 
-- 
2.43.0


From 7defb889fc1d7628650f4c0fcde76bb83a1ef6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 48/53] fix: prettyPrint keeps the text between child elements
 and carriage returns

---
 ndg/xacml/utils/etree.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index fb73526..f505772 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -101,6 +101,17 @@ class _PrettyPrint(object):
             # wrapper it as a string
             return str(elem).strip()
         
+    @classmethod
+    def escapeText(cls, text):
+        '''Prepare the text before or after an element for output
+
+        @param text: text or None
+        @type text: basestring
+        @return: text with leading and trailing whitespace removed and with
+        markup and carriage returns escaped
+        @rtype: basestring'''
+        return escape(cls.estrip(text), {'\r': '&#13;'})
+
     def __call__(self, elem, indent='', html=0, space=' '*4):
         '''Most of the work done in this wrapped function - wrapped so that
         state can be maintained for declared namespace declarations during
@@ -149,7 +160,7 @@ class _PrettyPrint(object):
             self.declaredNss.append(namespace)
             
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
-                                   escape(_PrettyPrint.estrip(elem.text)))
+                                   self.escapeText(elem.text))
         
         children = len(elem)
         if children:
@@ -157,10 +168,9 @@ class _PrettyPrint(object):
                 declaredNss = self.declaredNss[:]
                 _prettyPrint = _PrettyPrint(declaredNss, self.mappedPrefixes)
                 result += '\n'+ _prettyPrint(child, indent=indent+space) 
+                result += self.escapeText(child.tail)
                 
-            result += '\n%s%s</%s>' % (indent,
-                                     escape(_PrettyPrint.estrip(child.tail)),
-                                     tag)
+            result += '\n%s</%s>' % (indent, tag)
         else:
             result += '</%s>' % tag
             
-- 
2.43.0


From 394aa78fe49e68bc9cfbf83d6ff93d7acb2f4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 49/53] fix: prettyPrint declares the namespace prefixes it
 uses where they are not in scope

---
 ndg/xacml/utils/etree.py | 55 +++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index f505772..c73f67b 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -29,6 +29,9 @@ except ImportError:
 from io import StringIO
 from xml.sax.saxutils import escape, quoteattr
 
+# Namespace of attributes such as xml:lang; its prefix needs no declaration
+XML_NS = 'http://www.w3.org/XML/1998/namespace'
+
 
 def canonicalize(elem, **kw):
     '''ElementTree based Canonicalization - See ElementC14N for keyword
@@ -78,8 +81,9 @@ class _PrettyPrint(object):
     MAX_NS_TRIES = 256
     def __init__(self, declaredNss, mappedPrefixes):
         """
-        @param declaredNss: declared namespaces
-        @type declaredNss: iterable of string elements
+        @param declaredNss: prefix and namespace of the declarations in scope,
+        innermost last
+        @type declaredNss: list of tuples of two strings
         @param mappedPrefixes: map of namespace URIs to prefixes
         @type mappedPrefixes: map of string to string
         """
@@ -136,29 +140,24 @@ class _PrettyPrint(object):
                 
                 attr = "%s:%s" % (nsPrefix, QName.getLocalPart(attr))
                 
-                if attrNamespace not in self.declaredNss:
-                    nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix,attrNamespace)
-                    self.declaredNss.append(attrNamespace)
-                
+                nsDeclaration = self._declareNs(nsPrefix, attrNamespace)
+
             strAttribs.append('%s %s=%s' % (nsDeclaration, attr, 
                                             quoteattr(attrVal)))
             
         strAttrib = ''.join(strAttribs)
         
         namespace = QName.getNs(elem.tag)
-        nsPrefix = self._getNamespacePrefix(elem, namespace)
-            
-        tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
-        
-        # Put in namespace declaration if one doesn't already exist
-        # FIXME: namespace declaration handling is wrong for handling child
-        # element scope
-        if namespace in self.declaredNss:
-            nsDeclaration = ''
+        if namespace:
+            nsPrefix = self._getNamespacePrefix(elem, namespace)
+            tag = "%s:%s" % (nsPrefix, QName.getLocalPart(elem.tag))
+
+            # Put in namespace declaration if one doesn't already exist
+            nsDeclaration = self._declareNs(nsPrefix, namespace)
         else:
-            nsDeclaration = ' xmlns:%s="%s"' % (nsPrefix, namespace)
-            self.declaredNss.append(namespace)
-            
+            tag = elem.tag
+            nsDeclaration = ''
+
         result = '%s<%s%s%s>%s' % (indent, tag, nsDeclaration, strAttrib, 
                                    self.escapeText(elem.text))
         
@@ -176,8 +175,28 @@ class _PrettyPrint(object):
             
         return result
 
+    def _declareNs(self, nsPrefix, namespace):
+        '''Make the declaration needed to use a prefix for a namespace
+
+        @param nsPrefix: prefix
+        @type nsPrefix: basestring
+        @param namespace: namespace
+        @type namespace: basestring
+        @return: declaration, empty if the prefix already stands for this
+        namespace
+        @rtype: basestring'''
+        if (nsPrefix == 'xml' or 
+            dict(self.declaredNss).get(nsPrefix) == namespace):
+            return ''
+
+        self.declaredNss.append((nsPrefix, namespace))
+        return ' xmlns:%s=%s' % (nsPrefix, quoteattr(namespace))
+
     if Config.use_lxml:
         def _getNamespacePrefix(self, elem, namespace):
+            if namespace == XML_NS:
+                return 'xml'
+
             for nsPrefix, ns in elem.nsmap.items():
                 if ns == namespace:
                     return nsPrefix
-- 
2.43.0


From 8dc8c3b83acd7f4def46be0707feaa6b8a212678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 50/53] fix: prettyPrint prints comments and processing
 instructions

---
 ndg/xacml/utils/etree.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ndg/xacml/utils/etree.py b/ndg/xacml/utils/etree.py
index c73f67b..eff7ffc 100644
--- a/ndg/xacml/utils/etree.py
+++ b/ndg/xacml/utils/etree.py
@@ -26,6 +26,7 @@ except ImportError:
     import warnings
     warnings.warn(c14nWarning)
     
+import copy
 from io import StringIO
 from xml.sax.saxutils import escape, quoteattr
 
@@ -130,6 +131,12 @@ class _PrettyPrint(object):
         @return: pretty print format for doc
         @rtype: basestring       
         '''  
+        if not isinstance(elem.tag, str):
+            # Comment or processing instruction
+            node = copy.copy(elem)
+            node.tail = None
+            return indent + ElementTree.tostring(node, encoding='unicode')
+
         strAttribs = []
         for attr, attrVal in list(elem.attrib.items()):
             nsDeclaration = ''
-- 
2.43.0


From 25169c20da99127fbee02399fc95142a78351ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 51/53] fix: callModuleObject puts the import path back as it
 was

---
 ndg/xacml/utils/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index c5eaf4b..f111829 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -96,7 +96,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
                                   moduleFilePath)
                           
                 # Temporarily extend system path ready for import
-                sysPathBak = sys.path
+                sysPathBak = sys.path[:]
                           
                 sys.path.append(moduleFilePath)
 
@@ -110,7 +110,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # NB, python requires the use of a try/finally OR a try/except 
             # block - not both combined
             if sysPathBak:
-                sys.path = sysPathBak
+                sys.path[:] = sysPathBak
                             
     except Exception as e:
         log.debug('%r module import raised %r type exception: %s', 
-- 
2.43.0


From bc8996e7e3a061215159de3eb8b07d91a8e86de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:55 +0000
Subject: [PATCH 52/53] fix: callModuleObject left the directory it was given
 on an import path that was empty

---
 ndg/xacml/utils/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ndg/xacml/utils/factory.py b/ndg/xacml/utils/factory.py
index f111829..1b9a6d5 100644
--- a/ndg/xacml/utils/factory.py
+++ b/ndg/xacml/utils/factory.py
@@ -109,7 +109,7 @@ def callModuleObject(moduleName, objectName=None, moduleFilePath=None,
             # revert back to original sys path, if necessary
             # NB, python requires the use of a try/finally OR a try/except 
             # block - not both combined
-            if sysPathBak:
+            if sysPathBak is not None:
                 sys.path[:] = sysPathBak
                             
     except Exception as e:
-- 
2.43.0


From d858a9fcdeabd48424e01177bab6304ea5df0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:03 +0000
Subject: [PATCH 53/53] fix: pickle and copy resource content followed by text

---
 ndg/xacml/parsers/etree/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ndg/xacml/parsers/etree/__init__.py b/ndg/xacml/parsers/etree/__init__.py
index 02406bf..b2e1309 100644
--- a/ndg/xacml/parsers/etree/__init__.py
+++ b/ndg/xacml/parsers/etree/__init__.py
@@ -32,8 +32,10 @@ if Config.use_lxml:
 
     def serialiseIfElementTree(obj):
         if ElementTree.iselement(obj):
+            # Any text following the element is not part of it
             return SerialisedElementTree(ElementTree.tostring(obj,
-                                                              encoding=str))
+                                                              encoding=str,
+                                                              with_tail=False))
         else:
             return obj
     
-- 
2.43.0

