From d3641facf4504e8c43d2551bb4c280def42030bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:34 +0000
Subject: [PATCH 01/50] fix: Junction diameter is read into diameter, not color

---
 src/kiutils/items/schitems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 1c31cd5..0a5dac4 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -68,7 +68,7 @@ class Junction():
         for item in exp:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
             if item[0] == 'color': object.color = ColorRGBA().from_sexpr(item)
-            if item[0] == 'diameter': object.color = item[1]
+            if item[0] == 'diameter': object.diameter = item[1]
             if item[0] == 'uuid': object.uuid = item[1]
         return object
 
-- 
2.43.0


From ce842ed327c703c7096320fd5c19fff4c6142b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:35 +0000
Subject: [PATCH 02/50] fix: SyCurve.to_sexpr writes its head, points and
 closing bracket

---
 src/kiutils/items/syitems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index a78cb22..0a4303f 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -247,10 +247,10 @@ class SyCurve():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(curve\n'
-        expression =  f'{indents}  (pts\n'
+        expression += f'{indents}  (pts\n'
         for point in self.points:
-            expression =  f'{indents}    (xy {point.X} {point.Y})\n'
-        expression =  f'{indents}  )\n'
+            expression += f'{indents}    (xy {point.X} {point.Y})\n'
+        expression += f'{indents}  )\n'
         expression += self.stroke.to_sexpr(indent+2)
         expression += self.fill.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
-- 
2.43.0


From 0837fb2741522b87511621876a2551db3aeee8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/50] fix: FpLine.to_sexpr keeps the locked flag

---
 src/kiutils/items/fpitems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 7ef2b66..37cf97c 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -221,8 +221,9 @@ class FpLine():
             width = f' {self.stroke.to_sexpr(indent=0, newline=False)}'
         else:
             width = ''
+        locked = ' locked' if self.locked else ''
 
-        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{tstamp}){endline}'
+        return f'{indents}(fp_line (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (layer "{dequote(self.layer)}"){width}{locked}{tstamp}){endline}'
 
 @dataclass
 class FpRect():
-- 
2.43.0


From cbcf08f8779fc375a2737cc89669bb2ff4d99f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:20 +0000
Subject: [PATCH 04/50] fix: GrText.from_sexpr reads the text of a locked
 gr_text

---
 src/kiutils/items/gritems.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 075a926..1bb6e74 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -81,8 +81,16 @@ class GrText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
-        object.text = exp[1]
-        for item in exp[2:]:
+        # The 'locked' keyword, if given, precedes the text
+        if exp[1] == 'locked' and len(exp) > 2 and not isinstance(exp[2], list):
+            object.locked = True
+            object.text = exp[2]
+            start_at = 3
+        else:
+            object.text = exp[1]
+            start_at = 2
+
+        for item in exp[start_at:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From 9af0c618a4a35edc79399d46b0b7bf486bf48913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:21 +0000
Subject: [PATCH 05/50] fix: GrLine reads its angle token and closes it on
 writing

---
 src/kiutils/items/gritems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 1bb6e74..b012303 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -336,6 +336,7 @@ class GrLine():
                 continue
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': object.angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
@@ -357,7 +358,7 @@ class GrLine():
 
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
-        angle = f' (angle {self.angle}' if self.angle is not None else ''
+        angle = f' (angle {self.angle})' if self.angle is not None else ''
 
         return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
 
-- 
2.43.0


From 00270375b39ea9f77a1d49d09479aff38d0d3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 06/50] fix: Dimension.to_sexpr keeps locked and omits an unset
 tstamp

---
 src/kiutils/items/dimensions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/dimensions.py b/src/kiutils/items/dimensions.py
index 47b38e9..8ad0b8a 100644
--- a/src/kiutils/items/dimensions.py
+++ b/src/kiutils/items/dimensions.py
@@ -321,7 +321,9 @@ class Dimension():
         if len(points) == 0:
             raise Exception("Number of points must not be zero")
 
-        expression =   f'{indents}(dimension (type {self.type}) (layer "{self.layer}") (tstamp {self.tstamp})\n'
+        locked = ' locked' if self.locked else ''
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        expression =   f'{indents}(dimension{locked} (type {self.type}) (layer "{dequote(self.layer)}"){tstamp}\n'
         expression +=  f'{indents}  (pts{points})\n'
         if self.height is not None:
             expression +=  f'{indents}  (height {self.height})\n'
-- 
2.43.0


From 8dd7952a3f9b8fc443d7dda71b6ea9f23424b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:24 +0000
Subject: [PATCH 07/50] fix: PlotSettings.to_sexpr writes the useauxorigin
 value it was given

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index f4c1a80..5327d7b 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -631,7 +631,7 @@ class PlotSettings():
         expression += f'{indents}  (plotframeref {str(self.plotFameRef).lower()})\n'
         expression += f'{indents}  (viasonmask {str(self.viasOnMask).lower()})\n'
         expression += f'{indents}  (mode {self.mode})\n'
-        expression += f'{indents}  (useauxorigin false)\n'
+        expression += f'{indents}  (useauxorigin {str(self.useAuxOrigin).lower()})\n'
         expression += f'{indents}  (hpglpennumber {self.hpglPenNumber})\n'
         expression += f'{indents}  (hpglpenspeed {self.hpglPenSpeed})\n'
         expression += f'{indents}  (hpglpendiameter {float(self.hpglPenDiameter):.6f})\n'
-- 
2.43.0


From e8659f622bf3515b1274010529c0b5ca8cbf9ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:26 +0000
Subject: [PATCH 08/50] fix: PlotSettings.to_sexpr omits an empty
 layerselection, which could not be read back

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 5327d7b..44ab091 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -611,7 +611,8 @@ class PlotSettings():
         endline = '\n' if newline else ''
 
         expression =  f'{indents}(pcbplotparams\n'
-        expression += f'{indents}  (layerselection {self.layerSelection})\n'
+        if self.layerSelection != '':
+            expression += f'{indents}  (layerselection {self.layerSelection})\n'
         if self.plotOnAllLayersSelection is not None:
             expression += f'{indents}  (plot_on_all_layers_selection {self.plotOnAllLayersSelection})\n'
         expression += f'{indents}  (disableapertmacros {str(self.disableApertMacros).lower()})\n'
-- 
2.43.0


From 56d1db148a895c0cd49ad45bc8936311b4875d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:27 +0000
Subject: [PATCH 09/50] fix: Target.to_sexpr escapes the layer name and omits
 an unset tstamp

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 44ab091..7cc2cd0 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -1102,4 +1102,5 @@ class Target():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{self.layer}") (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
+        return f'{indents}(target {self.type} (at {self.position.X} {self.position.Y}) (size {self.size}) (width {self.width}) (layer "{dequote(self.layer)}"){tstamp}){endline}'
-- 
2.43.0


From 77495c2447028394939e6fb90a99208602d7f1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:29 +0000
Subject: [PATCH 10/50] fix: StackupLayer.to_sexpr escapes quotes in the layer
 type

---
 src/kiutils/items/brditems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 7cc2cd0..93753d7 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -308,7 +308,7 @@ class StackupLayer():
         epsilon_r = f' (epsilon_r {self.epsilonR})' if self.epsilonR is not None else ''
         loss_tangent = f' (loss_tangent {self.lossTangent})' if self.lossTangent is not None else ''
 
-        expression = f'{indents}(layer "{dequote(self.name)}" (type "{self.type}"){color}{thickness}'
+        expression = f'{indents}(layer "{dequote(self.name)}" (type "{dequote(self.type)}"){color}{thickness}'
         expression +=f'{material}{epsilon_r}{loss_tangent}'
         for layer in self.subLayers:
             expression += f'\n{layer.to_sexpr(indent+2)}'
-- 
2.43.0


From b201204690d3e03150cb48ba489d26a0853ac613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:31 +0000
Subject: [PATCH 11/50] fix: Segment.to_sexpr omits an empty tstamp, which
 could not be read back

---
 src/kiutils/items/brditems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/brditems.py b/src/kiutils/items/brditems.py
index 93753d7..b97fc02 100644
--- a/src/kiutils/items/brditems.py
+++ b/src/kiutils/items/brditems.py
@@ -831,7 +831,8 @@ class Segment():
         endline = '\n' if newline else ''
         locked = ' locked' if self.locked else ''
 
-        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}) (tstamp {self.tstamp})){endline}'
+        tstamp = f' (tstamp {self.tstamp})' if self.tstamp else ''
+        return f'{indents}(segment{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}) (width {self.width}) (layer "{dequote(self.layer)}") (net {self.net}){tstamp}){endline}'
 
 @dataclass
 class Via():
-- 
2.43.0


From f123e5c3e63bae309b060870dcb972d73f0c0331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:32 +0000
Subject: [PATCH 12/50] fix: board graphics with an unset width no longer write
 the word None

---
 src/kiutils/items/gritems.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index b012303..06cdcd9 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -360,7 +360,8 @@ class GrLine():
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         angle = f' (angle {self.angle})' if self.angle is not None else ''
 
-        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer} (width {self.width}){tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        return f'{indents}(gr_line{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){angle}{layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrRect():
@@ -442,7 +443,8 @@ class GrRect():
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        return f'{indents}(gr_rect{locked} (start {self.start.X} {self.start.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrCircle():
@@ -525,7 +527,8 @@ class GrCircle():
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
         fill = f' (fill {self.fill})' if self.fill is not None else ''
 
-        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){fill}{tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        return f'{indents}(gr_circle{locked} (center {self.center.X} {self.center.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{fill}{tstamp}){endline}'
 
 @dataclass
 class GrArc():
@@ -607,7 +610,8 @@ class GrArc():
         tstamp = f' (tstamp {self.tstamp})' if self.tstamp is not None else ''
         layer =  f' (layer "{dequote(self.layer)}")' if self.layer is not None else ''
 
-        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer} (width {self.width}){tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        return f'{indents}(gr_arc{locked} (start {self.start.X} {self.start.Y}) (mid {self.mid.X} {self.mid.Y}) (end {self.end.X} {self.end.Y}){layer}{width}{tstamp}){endline}'
 
 @dataclass
 class GrPoly():
@@ -703,7 +707,8 @@ class GrPoly():
 
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
-        expression += f'{indents}  ){layer} (width {self.width}){fill}{tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        expression += f'{indents}  ){layer}{width}{fill}{tstamp}){endline}'
         return expression
 
 @dataclass
@@ -785,5 +790,6 @@ class GrCurve():
         expression = f'{indents}(gr_curve{locked} (pts\n'
         for point in self.coordinates:
             expression += f'{indents}  (xy {point.X} {point.Y})\n'
-        expression += f'{indents}){layer} (width {self.width}){tstamp}){endline}'
+        width = f' (width {self.width})' if self.width is not None else ''
+        expression += f'{indents}){layer}{width}{tstamp}){endline}'
         return expression
-- 
2.43.0


From 2427d107258c1b8b372b98d421f3a4e7bba495ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:33 +0000
Subject: [PATCH 13/50] fix: FillSettings.to_sexpr omits unset thermal tokens
 instead of writing None

---
 src/kiutils/items/zones.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 714a035..0b84bf4 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -249,7 +249,10 @@ class FillSettings():
         hba = f'\n{indents}  (hatch_border_algorithm {self.hatchBorderAlgorithm})' if self.hatchBorderAlgorithm is not None else ''
         hmha = f' (hatch_min_hole_area {self.hatchMinHoleArea})' if self.hatchMinHoleArea is not None else ''
 
-        return f'{indents}(fill{yes}{mode} (thermal_gap {self.thermalGap}) (thermal_bridge_width {self.thermalBridgeWidth}){smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
+        tg = f' (thermal_gap {self.thermalGap})' if self.thermalGap is not None else ''
+        tbw = f' (thermal_bridge_width {self.thermalBridgeWidth})' if self.thermalBridgeWidth is not None else ''
+
+        return f'{indents}(fill{yes}{mode}{tg}{tbw}{smoothing}{radius}{irm}{iam}{ht}{hg}{ho}{hsl}{hsv}{hba}{hmha}){endline}'
 
 @dataclass
 class ZonePolygon():
-- 
2.43.0


From dd202cd914173f66de341d4a0a9cbc4f360faf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:35 +0000
Subject: [PATCH 14/50] fix: zone polygons honour newline=False and fill
 segments the indent

---
 src/kiutils/items/zones.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index 0b84bf4..d4cdd85 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -313,7 +313,7 @@ class ZonePolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -392,7 +392,7 @@ class FilledPolygon():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 # TODO: This is KiCad 4 stuff, has to be tested yet ..
@@ -466,7 +466,7 @@ class FillSegments():
         for point in self.coordinates:
             expression += f'{indents}    (xy {point.X} {point.Y})\n'
         expression += f'{indents}  )\n'
-        expression += f'{indents})\n'
+        expression += f'{indents}){endline}'
         return expression
 
 @dataclass
@@ -655,6 +655,6 @@ class Zone():
 
         # TODO: This is KiKad 4 stuff...
         if self.fillSegments is not None:
-            expression += self.fillSegments.to_sexpr()
+            expression += self.fillSegments.to_sexpr(indent+2)
         expression += f'{indents}){endline}'
         return expression
-- 
2.43.0


From d8d0478b32df0bfd2cc1c7a6e1ad798b3cb72739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:10 +0000
Subject: [PATCH 15/50] fix: a group named "locked" is not a locked group

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 707328e..f511ec8 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -600,7 +600,7 @@ class Group():
 
         object = cls()
         object.name = exp[1]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
                 continue
-- 
2.43.0


From ef17f71cc9c7734a03269e6011ceb2e36eb574da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:12 +0000
Subject: [PATCH 16/50] fix: Group.to_sexpr omits an empty id, which could not
 be read back

---
 src/kiutils/items/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index f511ec8..62beea1 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -623,8 +623,9 @@ class Group():
         indents = ' '*indent
         endline = '\n' if newline else ''
         locked = f' locked' if self.locked else ''
+        id = f' (id {self.id})' if self.id else ''
 
-        expression =  f'{indents}(group "{dequote(self.name)}"{locked} (id {self.id})\n'
+        expression =  f'{indents}(group "{dequote(self.name)}"{locked}{id}\n'
         expression += f'{indents}  (members\n'
         for member in self.members:
             expression += f'{indents}    {member}\n'
-- 
2.43.0


From 271fbfb66819a071ed2ec5ef59d300088f30aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:13 +0000
Subject: [PATCH 17/50] fix: RenderCache.from_sexpr accepts an empty text and a
 numeric id

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index 62beea1..b1b677e 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -993,7 +993,7 @@ class RenderCache():
         object = cls()
         object.text = exp[1]
         object.id = exp[2]
-        for item in exp:
+        for item in exp[3:]:
             if item[0] == 'polygon': object.polygons.append(RenderCachePolygon.from_sexpr(item))
         return object
 
-- 
2.43.0


From 561729238d6f200450d6bc17121f4df709529bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:15 +0000
Subject: [PATCH 18/50] fix: NetclassFlag defaults are instances, not the
 classes themselves

---
 src/kiutils/items/schitems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 0a5dac4..9599789 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -1845,10 +1845,10 @@ class NetclassFlag():
     """The ``shape`` token defines the shape of the netclass flag. Valid values are ``round``,
     ``rectangle``, ``dot`` or``diamond``."""
 
-    position: Position = field(default_factory=lambda: Position)
+    position: Position = field(default_factory=lambda: Position())
     """The ``position`` token defines the position and rotation of the netclass flag"""
 
-    effects: Effects = field(default_factory=lambda: Effects)
+    effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is drawn"""
 
     properties: List[Property] = field(default_factory=list)
-- 
2.43.0


From 0e194d229a9c9e007940aa7ea0ae55d4c55cb5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:16 +0000
Subject: [PATCH 19/50] fix: DrillDefinition reads drills with an offset and
 without a second size

---
 src/kiutils/footprint.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 5d32bb6..22d3cd1 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -261,12 +261,13 @@ class DrillDefinition():
         # Depending on the ``oval`` token, the fields may be shifted ..
         if exp[1] == 'oval':
             object.oval = True
-            object.diameter = exp[2]
-            object.width = exp[3]
+            sizes = [item for item in exp[2:] if not isinstance(item, list)]
         else:
-            object.diameter = exp[1]
-            if len(exp) > 2:
-                object.width = exp[2]
+            sizes = [item for item in exp[1:] if not isinstance(item, list)]
+        if len(sizes) > 0:
+            object.diameter = sizes[0]
+        if len(sizes) > 1:
+            object.width = sizes[1]
 
         # The ``offset`` token may not be given
         for item in exp:
@@ -291,7 +292,10 @@ class DrillDefinition():
         width = f' {self.width}' if self.oval and self.width is not None else ''
         offset = f' (offset {self.offset.X} {self.offset.Y})' if self.offset is not None else ''
 
-        return f'{indents}(drill{oval} {self.diameter}{width}{offset}){endline}'
+        # KiCad writes no diameter for a pad without a hole that only carries an offset
+        diameter = f' {self.diameter}' if self.diameter != 0 or self.oval or self.offset is None else ''
+
+        return f'{indents}(drill{oval}{diameter}{width}{offset}){endline}'
 
 @dataclass
 class PadOptions():
-- 
2.43.0


From b1c8b43208857308ce1b60d519e334f4684d1c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:17 +0000
Subject: [PATCH 20/50] fix: Board() carries a version and generator that can
 be read back

---
 src/kiutils/board.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index 95f0959..b70d882 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -37,10 +37,10 @@ class Board():
     Documentation:
         https://dev-docs.kicad.org/en/file-formats/sexpr-pcb/
     """
-    version: str = ""
+    version: str = KIUTILS_CREATE_NEW_VERSION_STR
     """The ``version`` token defines the board version using the YYYYMMDD date format"""
 
-    generator: str = ""
+    generator: str = KIUTILS_CREATE_NEW_GENERATOR_STR
     """The ``generator`` token defines the program used to write the file"""
 
     general: GeneralSettings = field(default_factory=lambda: GeneralSettings())
-- 
2.43.0


From bbd9743145bc9d0d4a6acf03f6cb3bc1a9ae9759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:19 +0000
Subject: [PATCH 21/50] fix: SymbolLib.to_sexpr omits an unset generator
 instead of writing None

---
 src/kiutils/symbol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 022a229..7cfbf50 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -585,7 +585,9 @@ class SymbolLib():
         indents = ' '*indent
         endline = '\n' if newline else ''
 
-        expression =  f'{indents}(kicad_symbol_lib (version {self.version}) (generator {self.generator})\n'
+        generator = f' (generator {self.generator})' if self.generator is not None else ''
+
+        expression =  f'{indents}(kicad_symbol_lib (version {self.version}){generator}\n'
         for item in self.symbols:
             expression += f'{indents}{item.to_sexpr(indent+2)}'
         expression += f'{indents}){endline}'
-- 
2.43.0


From 6025465999a5d4c510dc4f5339f76d669a21e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 22/50] fix: Board keeps footprints given as legacy module
 tokens

---
 src/kiutils/board.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index b70d882..eabd96f 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -126,7 +126,7 @@ class Board():
             if item[0] == 'setup': object.setup = SetupData().from_sexpr(item)
             if item[0] == 'property': object.properties.update({item[1]: item[2]})
             if item[0] == 'net': object.nets.append(Net().from_sexpr(item))
-            if item[0] == 'footprint': object.footprints.append(Footprint().from_sexpr(item))
+            if item[0] == 'footprint' or item[0] == 'module': object.footprints.append(Footprint().from_sexpr(item))
             if item[0] == 'gr_text': object.graphicItems.append(GrText().from_sexpr(item))
             if item[0] == 'gr_text_box': object.graphicItems.append(GrTextBox().from_sexpr(item))
             if item[0] == 'gr_line': object.graphicItems.append(GrLine().from_sexpr(item))
-- 
2.43.0


From 3fb00d89afbb971a685b3083db997e872eb5e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:22 +0000
Subject: [PATCH 23/50] fix: Constraint.to_sexpr accepts numeric constraint
 elements

---
 src/kiutils/dru.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index a1b5a4a..49db9ee 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -115,7 +115,7 @@ class Constraint():
         opt = f' (opt "{dequote(self.opt)}")' if self.opt is not None else ''
         max = f' (max "{dequote(self.max)}")' if self.max is not None else ''
 
-        elements = ' '+' '.join(self.elements) if (len(self.elements) > 0) else ''
+        elements = ' '+' '.join([str(element) for element in self.elements]) if (len(self.elements) > 0) else ''
 
         return f'{indents}(constraint {self.type}{min}{opt}{max}{elements}){endline}'
 
-- 
2.43.0


From 3f86ed0049971af546970c84fbc7011ef967e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:41 +0000
Subject: [PATCH 24/50] fix: Symbol names ending in zero-padded numbers keep
 their spelling

---
 src/kiutils/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 7cfbf50..3010f21 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(\d+?)_(\d+?)$", symbol_id)
+            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From f529bec45c82d3a8dbac678515a0937e42443935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:42 +0000
Subject: [PATCH 25/50] fix: Footprint.from_file sets filePath as documented

---
 src/kiutils/footprint.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 22d3cd1..64aa586 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -936,7 +936,9 @@ class Footprint():
             rawFootprint = infile.read()
 
             fpData = sexpr.parse_sexp(rawFootprint)
-            return cls.from_sexpr(fpData)
+            item = cls.from_sexpr(fpData)
+            item.filePath = filepath
+            return item
 
     @classmethod
     def create_new(cls, library_id: str, value: str,
-- 
2.43.0


From d3a00a800fc499e2727c06d6d7ffb4c691688deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:44 +0000
Subject: [PATCH 26/50] fix: WorkSheet.to_file takes an encoding like every
 other file class

---
 src/kiutils/wks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index d19ea61..fc04c1d 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -922,12 +922,14 @@ class WorkSheet():
             generator = KIUTILS_CREATE_NEW_GENERATOR_STR
         )
 
-    def to_file(self, filepath = None):
+    def to_file(self, filepath = None, encoding: Optional[str] = None):
         """Save the object to a file in S-Expression format
 
         Args:
             - filepath (str, optional): Path-like string to the file. Defaults to None. If not set, 
                                         the attribute ``self.filePath`` will be used instead.
+            - encoding (str, optional): Encoding of the output file. Defaults to None (platform 
+                                        dependent encoding).
 
         Raises:
             - Exception: If no file path is given via the argument or via `self.filePath`
@@ -937,7 +939,7 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        with open(filepath, 'w') as outfile:
+        with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(self.to_sexpr())
 
     def to_sexpr(self, indent=0, newline=True):
-- 
2.43.0


From 7153aa43aa93794b3e5a92f8d83f7625842eca9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:45 +0000
Subject: [PATCH 27/50] fix: to_file leaves the existing file alone when
 serialisation fails

---
 src/kiutils/board.py     | 4 +++-
 src/kiutils/dru.py       | 4 +++-
 src/kiutils/footprint.py | 4 +++-
 src/kiutils/libraries.py | 4 +++-
 src/kiutils/schematic.py | 4 +++-
 src/kiutils/symbol.py    | 4 +++-
 src/kiutils/wks.py       | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index eabd96f..b97c788 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -237,8 +237,10 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 49db9ee..13b59c2 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -289,8 +289,10 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=False):
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 64aa586..b4c0c20 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -1009,8 +1009,10 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True, layerInFirstLine=False) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 9098613..60a3529 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -193,8 +193,10 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index a3396ff..23840ee 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -226,8 +226,10 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 3010f21..1b85aa7 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -569,8 +569,10 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent: int = 0, newline: bool = True) -> str:
         """Generate the S-Expression representing this object
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index fc04c1d..c012996 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -939,8 +939,10 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
+        # Serialize before opening, as opening truncates the existing file
+        data = self.to_sexpr()
         with open(filepath, 'w', encoding=encoding) as outfile:
-            outfile.write(self.to_sexpr())
+            outfile.write(data)
 
     def to_sexpr(self, indent=0, newline=True):
         """Generate the S-Expression representing this object
-- 
2.43.0


From b7b24339ad47c541ef5c465de99b0faf6acb1008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:47 +0000
Subject: [PATCH 28/50] fix: a footprint without a tedit token is saved without
 one

---
 src/kiutils/footprint.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index b4c0c20..320ba89 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -730,8 +730,9 @@ class Footprint():
     layer: str = "F.Cu"
     """The ``layer`` token defines the canonical layer the footprint is placed"""
 
-    tedit: str = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
-    """The ``tedit`` token defines a the last time the footprint was edited"""
+    tedit: Optional[str] = remove_prefix(hex(calendar.timegm(datetime.datetime.now().utctimetuple())), '0x')
+    """The ``tedit`` token defines a the last time the footprint was edited. ``None`` when a footprint
+    was parsed that does not have this token"""
 
     tstamp: Optional[str] = None
     """The ``tstamp`` token defines the unique identifier for the footprint. This only applies
@@ -863,6 +864,7 @@ class Footprint():
 
         object = cls()
         object.libId = exp[1]
+        object.tedit = None
         for item in exp[2:]:
             if not isinstance(item, list):
                 if item == 'locked': object.locked = True
@@ -1039,7 +1041,9 @@ class Footprint():
             expression += f' (layer "{dequote(self.layer)}")\n'
         else:
             expression += f'\n{indents}  (layer "{dequote(self.layer)}")\n'
-        expression += f'{indents}  (tedit {self.tedit}){tstamp}\n'
+        tedit = f' (tedit {self.tedit})' if self.tedit is not None else ''
+        if tedit != '' or tstamp != '':
+            expression += f'{indents} {tedit}{tstamp}\n'
 
         if self.position is not None:
             angle = f' {self.position.angle}' if self.position.angle is not None else ''
-- 
2.43.0


From 6dd5178048b9d33fb749fc8a0ffcaced29b45e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:12 +0000
Subject: [PATCH 29/50] fix: to_file leaves the existing file alone when the
 text cannot be encoded

---
 src/kiutils/board.py         |  6 +++---
 src/kiutils/dru.py           |  6 +++---
 src/kiutils/footprint.py     |  6 +++---
 src/kiutils/libraries.py     |  6 +++---
 src/kiutils/schematic.py     |  5 +++--
 src/kiutils/symbol.py        |  6 +++---
 src/kiutils/utils/strings.py | 23 ++++++++++++++++++++++-
 src/kiutils/wks.py           |  6 +++---
 8 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/kiutils/board.py b/src/kiutils/board.py
index b97c788..3f2bfe4 100644
--- a/src/kiutils/board.py
+++ b/src/kiutils/board.py
@@ -24,7 +24,7 @@ from kiutils.items.zones import Zone
 from kiutils.items.brditems import *
 from kiutils.items.gritems import *
 from kiutils.items.dimensions import Dimension
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import dequote, ensure_encodable
 from kiutils.utils import sexpr
 from kiutils.footprint import Footprint
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR, KIUTILS_CREATE_NEW_GENERATOR_STR
@@ -237,8 +237,8 @@ class Board():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 13b59c2..64ce149 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import dequote, ensure_encodable
 
 @dataclass
 class Constraint():
@@ -289,8 +289,8 @@ class DesignRules():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 320ba89..cc9a015 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -27,7 +27,7 @@ from kiutils.items.common import Image, Position, Coordinate, Net, Group, Font
 from kiutils.items.fpitems import *
 from kiutils.items.gritems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote, remove_prefix
+from kiutils.utils.strings import dequote, remove_prefix, ensure_encodable
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -1011,8 +1011,8 @@ class Footprint():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/libraries.py b/src/kiutils/libraries.py
index 60a3529..330befe 100644
--- a/src/kiutils/libraries.py
+++ b/src/kiutils/libraries.py
@@ -16,7 +16,7 @@ from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
 
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import dequote, ensure_encodable
 from kiutils.utils import sexpr
 
 @dataclass
@@ -193,8 +193,8 @@ class LibTable():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index 23840ee..1f502c0 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -23,6 +23,7 @@ from kiutils.items.common import Image, PageSettings, TitleBlock
 from kiutils.items.schitems import *
 from kiutils.symbol import Symbol
 from kiutils.utils import sexpr
+from kiutils.utils.strings import ensure_encodable
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -226,8 +227,8 @@ class Schematic():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 1b85aa7..06f115d 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -22,7 +22,7 @@ import re
 from kiutils.items.common import Effects, Position, Property, Font
 from kiutils.items.syitems import *
 from kiutils.utils import sexpr
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import dequote, ensure_encodable
 from kiutils.misc.config import KIUTILS_CREATE_NEW_VERSION_STR
 
 @dataclass
@@ -569,8 +569,8 @@ class SymbolLib():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
diff --git a/src/kiutils/utils/strings.py b/src/kiutils/utils/strings.py
index e2e97a7..c6be9de 100644
--- a/src/kiutils/utils/strings.py
+++ b/src/kiutils/utils/strings.py
@@ -10,6 +10,9 @@ Major changes:
     28.02.2022 - created
 """
 
+import locale
+from typing import Optional
+
 def dequote(input: str) -> str:
     """Escapes double-quotes in a string using a backslash
 
@@ -33,4 +36,22 @@ def remove_prefix(input: str, prefix: str) -> str:
     Returns:
         - str: String with removed prefix, or the ``input`` string as is, if the prefix was not found
     """
-    return input[len(prefix):] if input.startswith(prefix) else input
\ No newline at end of file
+    return input[len(prefix):] if input.startswith(prefix) else input
+
+def ensure_encodable(input: str, encoding: Optional[str] = None) -> str:
+    """Check that a string can be written to a text file using the given encoding
+
+    Args:
+        - input (str): String to check
+        - encoding (str, optional): Encoding of the text file. Defaults to None (platform dependent
+                                    encoding).
+
+    Raises:
+        - UnicodeEncodeError: If the string can not be represented using the given encoding
+        - LookupError: If the given encoding is not known
+
+    Returns:
+        - str: The unchanged input string
+    """
+    input.encode(encoding if encoding is not None else locale.getpreferredencoding(False))
+    return input
diff --git a/src/kiutils/wks.py b/src/kiutils/wks.py
index c012996..7fc86d9 100644
--- a/src/kiutils/wks.py
+++ b/src/kiutils/wks.py
@@ -20,7 +20,7 @@ from typing import Optional, List
 from os import path
 
 from kiutils.items.common import Justify
-from kiutils.utils.strings import dequote
+from kiutils.utils.strings import dequote, ensure_encodable
 from kiutils.utils import sexpr
 from kiutils.misc.config import KIUTILS_CREATE_NEW_GENERATOR_STR, KIUTILS_CREATE_NEW_VERSION_STR
 
@@ -939,8 +939,8 @@ class WorkSheet():
                 raise Exception("File path not set")
             filepath = self.filePath
 
-        # Serialize before opening, as opening truncates the existing file
-        data = self.to_sexpr()
+        # Serialize and encode before opening, as opening truncates the existing file
+        data = ensure_encodable(self.to_sexpr(), encoding)
         with open(filepath, 'w', encoding=encoding) as outfile:
             outfile.write(data)
 
-- 
2.43.0


From 2bfe06446988b343aac9fc0798534664f1c2f8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:30 +0000
Subject: [PATCH 30/50] fix: numbers followed by any whitespace or a bracket
 are read as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 764fa58..ac56fe4 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\ \)])|\-?\d+(?=[\ \)]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
         (?P<s>[^(^)\s]+)
        )'''
-- 
2.43.0


From 3d013132e2a83a95fa944857a714e804642c5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:32 +0000
Subject: [PATCH 31/50] fix: unquoted atoms keep their ^ characters

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index ac56fe4..7367195 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -12,7 +12,7 @@ term_regex = r'''(?mx)
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
-        (?P<s>[^(^)\s]+)
+        (?P<s>[^()\s]+)
        )'''
 
 def parse_sexp(sexp):
-- 
2.43.0


From 81fb1e0a1b619a0b967ba6e55d32f3700f581166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:34 +0000
Subject: [PATCH 32/50] fix: a quoted string directly followed by an opening
 bracket is read as string

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 7367195..c9081bf 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -11,7 +11,7 @@ term_regex = r'''(?mx)
         (?P<brackl>\()|
         (?P<brackr>\))|
         (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
-        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=\))|(?=\s)))|
+        (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=[()])|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
 
-- 
2.43.0


From 03de67906e36a72965daffa6d4b82e549c2c477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:36 +0000
Subject: [PATCH 33/50] fix: numbers with a negative exponent, as Python writes
 them, are read as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index c9081bf..f2fd8d4 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?mx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()])|[+-]?\d+(?:\.\d+)?e-\d+(?=[\s()]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=[()])|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From 925fc79063e923108798b12b75c2816a70748761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:00 +0000
Subject: [PATCH 34/50] fix: large integers keep all their digits

---
 src/kiutils/utils/sexpr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index f2fd8d4..40a1313 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -30,8 +30,11 @@ def parse_sexp(sexp):
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
-            v = float(value)
-            if v.is_integer(): v = int(v)
+            try:
+                v = int(value)
+            except ValueError:
+                v = float(value)
+                if v.is_integer(): v = int(v)
             out.append(v)
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
-- 
2.43.0


From 3a0f982b4a3c6d484390d3e710eee6d0bd27d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:01 +0000
Subject: [PATCH 35/50] fix: unbalanced brackets are rejected with assertions
 disabled, too

---
 src/kiutils/utils/sexpr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 40a1313..083cf32 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -26,7 +26,7 @@ def parse_sexp(sexp):
             stack.append(out)
             out = []
         elif term == 'brackr':
-            assert stack, "Trouble with nesting of brackets"
+            if not stack: raise AssertionError("Trouble with nesting of brackets")
             tmpout, out = out, stack.pop(-1)
             out.append(tmpout)
         elif term == 'num':
@@ -42,5 +42,5 @@ def parse_sexp(sexp):
             out.append(value)
         else:
             raise NotImplementedError("Error: %r" % (term, value))
-    assert not stack, "Trouble with nesting of brackets"
+    if stack: raise AssertionError("Trouble with nesting of brackets")
     return out[0]
\ No newline at end of file
-- 
2.43.0


From d0f561453b31a0e5822cbb81a5d17c7a01e05224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:03 +0000
Subject: [PATCH 36/50] fix: an unterminated quoted string is rejected

---
 src/kiutils/utils/sexpr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 083cf32..b138727 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -39,6 +39,7 @@ def parse_sexp(sexp):
         elif term == 'sq':
             out.append(value[1:-1].replace(r'\"', '"'))
         elif term == 's':
+            if value.startswith('"'): raise AssertionError("Unterminated quoted string")
             out.append(value)
         else:
             raise NotImplementedError("Error: %r" % (term, value))
-- 
2.43.0


From ba39f35cbf05212a7c3d219397982d3b64ec5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:02 +0000
Subject: [PATCH 37/50] fix: unknown tokens in connect_pads do not end up in
 other fields

---
 src/kiutils/items/zones.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/kiutils/items/zones.py b/src/kiutils/items/zones.py
index d4cdd85..45598cf 100644
--- a/src/kiutils/items/zones.py
+++ b/src/kiutils/items/zones.py
@@ -590,11 +590,9 @@ class Zone():
                 object.hatch = Hatch(style=item[1], pitch=item[2])
             if item[0] == 'priority': object.priority = item[1]
             if item[0] == 'connect_pads':
-                if len(item) == 2:
-                    object.clearance = item[1][1]
-                else:
-                    object.connectPads = item[1]
-                    object.clearance = item[2][1]
+                for value in item[1:]:
+                    if type(value) != type([]): object.connectPads = value
+                    elif value[0] == 'clearance': object.clearance = value[1]
             if item[0] == 'min_thickness': object.minThickness = item[1]
             if item[0] == 'filled_areas_thickness': object.filledAreasThickness = item[1]
             if item[0] == 'keepout': object.keepoutSettings = KeepoutSettings().from_sexpr(item)
-- 
2.43.0


From ffe9d3c25ed59e7d8b7b93203abaf91a04edd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:00 +0000
Subject: [PATCH 38/50] fix: the virtual attribute of KiCad 5 footprints is not
 lost

---
 src/kiutils/footprint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index cc9a015..4213bbb 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -92,6 +92,10 @@ class Attributes():
             if item == 'exclude_from_pos_files': object.excludeFromPosFiles = True
             if item == 'exclude_from_bom': object.excludeFromBom = True
             if item == 'allow_missing_courtyard': object.allowMissingCourtyard = True
+            if item == 'virtual':
+                # KiCad 5 token that was replaced by these two since KiCad 6
+                object.excludeFromPosFiles = True
+                object.excludeFromBom = True
         return object
 
     def to_sexpr(self, indent=0, newline=False) -> str:
-- 
2.43.0


From 2273983e7293278d751eed5fe0f4b6608ff233e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:00 +0000
Subject: [PATCH 39/50] fix: reject text after the end of the expression
 instead of dropping it

---
 src/kiutils/utils/sexpr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index b138727..97e8e04 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -44,4 +44,5 @@ def parse_sexp(sexp):
         else:
             raise NotImplementedError("Error: %r" % (term, value))
     if stack: raise AssertionError("Trouble with nesting of brackets")
+    if len(out) > 1: raise AssertionError("Unexpected text after the end of the expression")
     return out[0]
\ No newline at end of file
-- 
2.43.0


From ba68ad6b6fad92e63089faaaf2026ec0229b025a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:12 +0000
Subject: [PATCH 40/50] fix: design rule constraints with numeric elements can
 be loaded

---
 src/kiutils/dru.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 64ce149..7530f0c 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -93,6 +93,7 @@ class Constraint():
         for item in exp[2:]:
             if type(item) != type([]):
                 object.elements.append(item)
+                continue
             if item[0] == 'min': object.min = item[1]
             if item[0] == 'opt': object.opt = item[1]
             if item[0] == 'max': object.max = item[1]
-- 
2.43.0


From a5218053767de219116253f69d93ce60fd20c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 41/50] fix: comments in design rules files are not read as
 rules

---
 src/kiutils/dru.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/dru.py b/src/kiutils/dru.py
index 7530f0c..691751d 100644
--- a/src/kiutils/dru.py
+++ b/src/kiutils/dru.py
@@ -15,6 +15,7 @@ Documentation taken from:
 
 from __future__ import annotations
 
+import re
 from dataclasses import dataclass, field
 from typing import Optional, List
 from os import path
@@ -22,6 +23,12 @@ from os import path
 from kiutils.utils import sexpr
 from kiutils.utils.strings import dequote, ensure_encodable
 
+def _strip_comments(text: str) -> str:
+    """Remove the comments of a design rules file, which are lines that start with ``#``, leaving
+    quoted strings as they are"""
+    return re.sub(r'''"(?:[^"]|(?<=\\)")*"|^[ \t]*#.*''',
+                  lambda match: match[0] if match[0].startswith('"') else '', text, flags=re.M)
+
 @dataclass
 class Constraint():
     """The ``Constraint`` token defines a design rule's constraint"""
@@ -259,7 +266,7 @@ class DesignRules():
         with open(filepath, 'r', encoding=encoding) as infile:
             # This dirty fix adds opening and closing brackets `(..)` to the read input to enable
             # the S-Expression parser to work for the DRU-format as well.
-            data = f'({infile.read()})'
+            data = f'({_strip_comments(infile.read())})'
             item = cls.from_sexpr(sexpr.parse_sexp(data))
             item.filePath = filepath
             return item
-- 
2.43.0


From 0dbcdddeaf9e299a0748ac99609400b0f02bff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:09 +0000
Subject: [PATCH 42/50] fix: private symbol texts keep their text

---
 src/kiutils/items/syitems.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/syitems.py b/src/kiutils/items/syitems.py
index 0a4303f..578d149 100644
--- a/src/kiutils/items/syitems.py
+++ b/src/kiutils/items/syitems.py
@@ -420,6 +420,10 @@ class SyText():
     effects: Effects = field(default_factory=lambda: Effects())
     """The ``effects`` token defines how the text is displayed"""
 
+    private: bool = False
+    """The ``private`` token defines if the text is only visible in the symbol editor. Defaults
+    to ``False``"""
+
     @classmethod
     def from_sexpr(cls, exp: list) -> SyText:
         """Convert the given S-Expresstion into a SyText object
@@ -441,6 +445,12 @@ class SyText():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+
+        # Extract "private" token, if any is present
+        if exp[1] == "private" and len(exp) > 2 and not isinstance(exp[2], list):
+            object.private = True
+            exp = exp[1:]
+
         object.text = exp[1]
         for item in exp[2:]:
             if item[0] == 'at': object.position = Position().from_sexpr(item)
@@ -461,8 +471,9 @@ class SyText():
         endline = '\n' if newline else ''
 
         posA = f' {self.position.angle}' if self.position.angle is not None else ''
+        private = ' private' if self.private else ''
 
-        expression =  f'{indents}(text "{dequote(self.text)}" (at {self.position.X} {self.position.Y}{posA})\n'
+        expression =  f'{indents}(text{private} "{dequote(self.text)}" (at {self.position.X} {self.position.Y}{posA})\n'
         expression += f'{indents}  {self.effects.to_sexpr()}'
         expression += f'{indents}){endline}'
         return expression
-- 
2.43.0


From fb7edde141333dfab46ed5332c47566feee295bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:09 +0000
Subject: [PATCH 43/50] fix: locked footprint texts keep their text

---
 src/kiutils/items/fpitems.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 37cf97c..8f06f03 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -67,6 +67,9 @@ class FpText():
     
     Available since KiCad v7"""
 
+    locked: bool = False
+    """The ``locked`` token defines if the text may be moved or not"""
+
     @classmethod
     def from_sexpr(cls, exp: list) -> FpText:
         """Convert the given S-Expresstion into a FpText object
@@ -89,6 +92,12 @@ class FpText():
 
         object = cls()
         object.type = exp[1]
+
+        # Extract "locked" token, if any is present
+        if exp[2] == 'locked' and len(exp) > 3 and not isinstance(exp[3], list):
+            object.locked = True
+            exp = exp[1:]
+
         object.text = exp[2]
         for item in exp[3:]:
             if type(item) != type([]):
@@ -122,8 +131,9 @@ class FpText():
         unlocked = ' unlocked' if self.position.unlocked else ''
         posA = f' {self.position.angle}' if self.position.angle is not None else ''
         ko = ' knockout' if self.knockout else ''
+        locked = ' locked' if self.locked else ''
 
-        expression =  f'{indents}(fp_text {self.type} "{dequote(self.text)}" (at {self.position.X} {self.position.Y}{posA}{unlocked}) (layer "{dequote(self.layer)}"{ko}){hide}\n'
+        expression =  f'{indents}(fp_text {self.type}{locked} "{dequote(self.text)}" (at {self.position.X} {self.position.Y}{posA}{unlocked}) (layer "{dequote(self.layer)}"{ko}){hide}\n'
         expression += f'{indents}  {self.effects.to_sexpr()}'
         if self.tstamp is not None:
             expression += f'{indents}  (tstamp {self.tstamp})\n'
-- 
2.43.0


From 1eecb0b1d28c96efa1e8be8774887fdc10290e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:56 +0000
Subject: [PATCH 44/50] fix: arcs of KiCad 5 keep their shape

---
 src/kiutils/items/common.py  | 25 +++++++++++++++++++++++++
 src/kiutils/items/fpitems.py |  8 +++++++-
 src/kiutils/items/gritems.py |  8 +++++++-
 3 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index b1b677e..c8c8315 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -17,6 +17,7 @@ Documentation taken from:
 from __future__ import annotations
 from abc import ABC, abstractmethod
 
+import math
 from dataclasses import dataclass, field
 from typing import Optional, List, Dict
 
@@ -80,6 +81,30 @@ class Position():
         raise NotImplementedError("This object does not have a direct S-Expression representation")
 
 
+def arc_points(center: Position, start: Position, angle: float) -> List[Position]:
+    """Get the start, mid and end point of an arc as defined by KiCad 5, which is given by its center,
+    its start point and the angle (in degrees) it spans
+
+    Args:
+        - center (Position): Center of the arc
+        - start (Position): Start point of the arc
+        - angle (float): Angle from the start to the end point in degrees
+
+    Returns:
+        - List[Position]: The start, mid and end point of the arc
+    """
+    def rounded(value: float):
+        # KiCad resolves nanometers. Whole numbers are integers, as they are when parsed from a file.
+        value = round(float(value), 6)
+        return int(value) if value.is_integer() else value
+
+    points = [start]
+    dx, dy = start.X - center.X, start.Y - center.Y
+    for part in (math.radians(angle / 2), math.radians(angle)):
+        points.append(Position(X=rounded(center.X + dx * math.cos(part) - dy * math.sin(part)),
+                               Y=rounded(center.Y + dx * math.sin(part) + dy * math.cos(part))))
+    return points
+
 @dataclass
 class Coordinate():
     """The ``coordinate`` token defines a three-dimentional position"""
diff --git a/src/kiutils/items/fpitems.py b/src/kiutils/items/fpitems.py
index 8f06f03..ba67a30 100644
--- a/src/kiutils/items/fpitems.py
+++ b/src/kiutils/items/fpitems.py
@@ -20,7 +20,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 
-from kiutils.items.common import RenderCache, Stroke, Position, Effects
+from kiutils.items.common import RenderCache, Stroke, Position, Effects, arc_points
 from kiutils.utils.strings import dequote
 
 # FIXME: Several classes have a ``stroke`` member. This feature will be introduced in KiCad 7 and
@@ -633,6 +633,7 @@ class FpArc():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+        angle = None
         for item in exp:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
@@ -641,6 +642,7 @@ class FpArc():
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'mid': object.mid = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width':
@@ -650,6 +652,10 @@ class FpArc():
                 object.stroke = Stroke.from_sexpr(item)
                 object.width = None
 
+        if angle is not None:
+            # KiCad 5 defines the arc by its center (start), its start point (end) and an angle
+            object.start, object.mid, object.end = arc_points(object.start, object.end, angle)
+
         return object
 
     def to_sexpr(self, indent: int = 2, newline: bool = True) -> str:
diff --git a/src/kiutils/items/gritems.py b/src/kiutils/items/gritems.py
index 06cdcd9..66359b7 100644
--- a/src/kiutils/items/gritems.py
+++ b/src/kiutils/items/gritems.py
@@ -20,7 +20,7 @@ from __future__ import annotations
 from dataclasses import dataclass, field
 from typing import Optional, List
 
-from kiutils.items.common import Effects, Position, RenderCache, Stroke
+from kiutils.items.common import Effects, Position, RenderCache, Stroke, arc_points
 from kiutils.utils.strings import dequote
 
 @dataclass
@@ -580,6 +580,7 @@ class GrArc():
             raise Exception("Expression does not have the correct type")
 
         object = cls()
+        angle = None
         for item in exp:
             if type(item) != type([]):
                 if item == 'locked': object.locked = True
@@ -587,10 +588,15 @@ class GrArc():
             if item[0] == 'start': object.start = Position.from_sexpr(item)
             if item[0] == 'mid': object.mid = Position.from_sexpr(item)
             if item[0] == 'end': object.end = Position.from_sexpr(item)
+            if item[0] == 'angle': angle = item[1]
             if item[0] == 'layer': object.layer = item[1]
             if item[0] == 'tstamp': object.tstamp = item[1]
             if item[0] == 'width': object.width = item[1]
 
+        if angle is not None:
+            # KiCad 5 defines the arc by its center (start), its start point (end) and an angle
+            object.start, object.mid, object.end = arc_points(object.start, object.end, angle)
+
         return object
 
     def to_sexpr(self, indent: int = 2, newline: bool = True) -> str:
-- 
2.43.0


From f0199a4fd443ca2cbedbde194d5ce844e3a11c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:43 +0000
Subject: [PATCH 45/50] fix: top-level symbols whose names end in two numbers
 keep their name

Loading a library or schematic took the end of names like Filter_EMI_LLL_162534_1
for the unit and style of a child symbol.
---
 src/kiutils/schematic.py |  2 +-
 src/kiutils/symbol.py    | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/kiutils/schematic.py b/src/kiutils/schematic.py
index 1f502c0..87f16c3 100644
--- a/src/kiutils/schematic.py
+++ b/src/kiutils/schematic.py
@@ -144,7 +144,7 @@ class Schematic():
             if item[0] == 'title_block': object.titleBlock = TitleBlock().from_sexpr(item)
             if item[0] == 'lib_symbols':
                 for symbol in item[1:]:
-                    object.libSymbols.append(Symbol().from_sexpr(symbol))
+                    object.libSymbols.append(Symbol().from_sexpr(symbol)._as_top_level())
             if item[0] == 'junction': object.junctions.append(Junction().from_sexpr(item))
             if item[0] == 'no_connect': object.noConnects.append(NoConnect().from_sexpr(item))
             if item[0] == 'bus_entry': object.busEntries.append(BusEntry().from_sexpr(item))
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 06f115d..2e39b03 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -290,6 +290,18 @@ class Symbol():
         for unit in self.units:
             unit.entryName = self.entryName
 
+    def _as_top_level(self) -> Symbol:
+        """Mark this symbol as a top-level symbol. Only child symbols have a unit and style, so numbers
+        at the end of the name of a top-level symbol belong to its ``entryName``.
+
+        Returns:
+            - Symbol: This symbol
+        """
+        self.entryName = self.libId if self.libraryNickname is None else self.entryName
+        self.unitId = None
+        self.styleId = None
+        return self
+
     libraryNickname: Optional[str] = None
     """The optional ``libraryNickname`` token defines which symbol library this symbol belongs to
     and is a part of the ``id`` token"""
@@ -549,7 +561,7 @@ class SymbolLib():
         for item in exp[1:]:
             if item[0] == 'version': object.version = item[1]
             if item[0] == 'generator': object.generator = item[1]
-            if item[0] == 'symbol': object.symbols.append(Symbol().from_sexpr(item))
+            if item[0] == 'symbol': object.symbols.append(Symbol().from_sexpr(item)._as_top_level())
         return object
 
     def to_file(self, filepath = None, encoding: Optional[str] = None):
-- 
2.43.0


From 28659cfc2ec364b195a4899623233deadd27e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 46/50] fix: only ASCII digits and white space separate or make
 up unquoted tokens

KiCad writes other characters into unquoted words: full-width digits were read
as numbers and words were torn apart at ideographic spaces.
---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 97e8e04..4c37ee5 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -6,7 +6,7 @@ import re
 
 dbg = False
 
-term_regex = r'''(?mx)
+term_regex = r'''(?amx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-- 
2.43.0


From f20bdb3575df7fdc68a5721854bffe59efb09bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:47 +0000
Subject: [PATCH 47/50] fix: large floats, which Python spells like 1e+16, are
 read back as numbers

---
 src/kiutils/utils/sexpr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/utils/sexpr.py b/src/kiutils/utils/sexpr.py
index 4c37ee5..70baa0b 100644
--- a/src/kiutils/utils/sexpr.py
+++ b/src/kiutils/utils/sexpr.py
@@ -10,7 +10,7 @@ term_regex = r'''(?amx)
     \s*(?:
         (?P<brackl>\()|
         (?P<brackr>\))|
-        (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()])|[+-]?\d+(?:\.\d+)?e-\d+(?=[\s()]))|
+        (?P<num>[+-]?\d+\.\d+(?=[\s()])|\-?\d+(?=[\s()])|[+-]?\d+(?:\.\d+)?e[+-]\d+(?=[\s()]))|
         (?P<sq>"(?:[^"]|(?<=\\)")*"(?:(?=[()])|(?=\s)))|
         (?P<s>[^()\s]+)
        )'''
-- 
2.43.0


From 03d677cb24bcfe2f8a485d88582a258a3381e3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:25 +0000
Subject: [PATCH 48/50] fix: a paper size named portrait is not the portrait
 flag

---
 src/kiutils/items/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/items/common.py b/src/kiutils/items/common.py
index c8c8315..aa86bcc 100644
--- a/src/kiutils/items/common.py
+++ b/src/kiutils/items/common.py
@@ -709,7 +709,7 @@ class PageSettings():
 
             object.width = exp[2]
             object.height = exp[3]
-        for item in exp:
+        for item in exp[2:]:
             if type(item) != type([]):
                 if item == 'portrait': object.portrait = True
                 continue
-- 
2.43.0


From 9003c464e361582aba460d9cb4b114725eaf42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:48 +0000
Subject: [PATCH 49/50] fix: identifiers with line breaks keep all their
 characters and are split like any other

---
 src/kiutils/footprint.py      | 2 +-
 src/kiutils/items/schitems.py | 2 +-
 src/kiutils/symbol.py         | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 4213bbb..1287877 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -703,7 +703,7 @@ class Footprint():
               or only ``<entryName>``
         """
         # kicad5 fix: module names may not be quoted strings (only numbers) - see PR #91
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", str(symbol_id))
+        parse_symbol_id = re.fullmatch(r"(.+?):(.+)", str(symbol_id), re.DOTALL)
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/items/schitems.py b/src/kiutils/items/schitems.py
index 9599789..311b3e2 100644
--- a/src/kiutils/items/schitems.py
+++ b/src/kiutils/items/schitems.py
@@ -993,7 +993,7 @@ class SchematicSymbol():
             - symbol_id (str): The symbol id in the following format: ``<libraryNickname>:<entryName>``
               or only ``<entryName>``
         """
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.fullmatch(r"(.+?):(.+)", symbol_id, re.DOTALL)
         if parse_symbol_id:
             self.libraryNickname = parse_symbol_id.group(1)
             self.entryName = parse_symbol_id.group(2)
diff --git a/src/kiutils/symbol.py b/src/kiutils/symbol.py
index 2e39b03..51f7bdf 100644
--- a/src/kiutils/symbol.py
+++ b/src/kiutils/symbol.py
@@ -264,7 +264,7 @@ class Symbol():
             - Exception: If the given ID is neither a top-level nor a child symbol
         """
         # Try to parse the given ID
-        parse_symbol_id = re.match(r"^(.+?):(.+?)$", symbol_id)
+        parse_symbol_id = re.fullmatch(r"(.+?):(.+)", symbol_id, re.DOTALL)
         if parse_symbol_id:
             # The symbol is a top-level symbol with a library nickname
             self.libraryNickname = parse_symbol_id.group(1)
@@ -272,7 +272,7 @@ class Symbol():
             self.unitId = None
             self.styleId = None
         else:
-            parse_symbol_id = re.match(r"^(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)$", symbol_id)
+            parse_symbol_id = re.fullmatch(r"(.+?)_(0|[1-9][0-9]*)_(0|[1-9][0-9]*)", symbol_id, re.DOTALL)
             if parse_symbol_id:
                 # The symbol is a child symbol
                 self.libraryNickname = None
-- 
2.43.0


From 6826efbf57b996dd9ed658d594ee9831d4721c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:50 +0000
Subject: [PATCH 50/50] fix: pad layers with * or & and white space, brackets
 or quotes are written quoted

---
 src/kiutils/footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kiutils/footprint.py b/src/kiutils/footprint.py
index 1287877..f918c46 100644
--- a/src/kiutils/footprint.py
+++ b/src/kiutils/footprint.py
@@ -575,7 +575,7 @@ class Pad():
         for layer in self.layers:
             # For some reason KiCad does not escape a layer with double-quotes if it has a
             # wildcard (*) or an ampersant (&) in it
-            if "*." in layer or "&" in layer:
+            if ("*." in layer or "&" in layer) and not re.search(r'[\s()"]', layer):
                 layers += f' {layer}'
             else:
                 layers += f' "{dequote(layer)}"'
-- 
2.43.0

