From 1c7ec8520cc3bb8d6dbdf171ce9260e7a80a1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 01/42] fix: find the command of a line which starts with a
 comment

---
 gcodeutils/gcoder.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..42a43bf 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -143,18 +143,21 @@ def raw_to_line(raw):
     return temp
 
 def split(line):
-    split_raw = gcode_exp.findall(line.raw.lower())
+    bits = gcode_exp.findall(line.raw.lower())
+    # comments are matched as empty words, wherever they stand in the line
+    split_raw = [bit for bit in bits if bit[0]]
+    has_comment = len(split_raw) != len(bits)
     if split_raw and split_raw[0][0] == "n":
         del split_raw[0]
-    if not split_raw:
+    if not split_raw and not has_comment:
         line.command = line.raw
         line.is_move = False
         logging.warning("raw G-Code line \"%s\" could not be parsed" % line.raw)
         return [line.raw]
 
-    command = split_raw[0]
-    # sanitize command if empty
-    if command != ('', ''):
+    # a line holding only comments has no command
+    if split_raw:
+        command = split_raw[0]
         line.command = command[0].upper() + command[1]
 
     line.is_move = line.command in move_gcodes
-- 
2.43.0


From 3c7df6ebb0f5b50528f900dedf7c5e416083138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 02/42] fix: do not fail on malformed numbers and free text

---
 gcodeutils/gcoder.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 42a43bf..7ecff9c 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -119,13 +119,21 @@ Line = PyLine
 LightLine = PyLightLine
 
 
+def parse_number(text):
+    """Return the value of a number, or None if the text is not one (a lone sign or decimal point, nothing at all)"""
+    try:
+        return float(text)
+    except ValueError:
+        return None
+
+
 def find_specific_code(line, code):
     exp = specific_exp % code
-    bits = [bit for bit in re.findall(exp, line.raw) if bit]
+    bits = [bit for bit in re.findall(exp, line.raw, re.IGNORECASE) if bit]
     if not bits:
         return None
     else:
-        return float(bits[0][1:])
+        return parse_number(bits[0][1:])
 
 
 def S(line):
@@ -183,8 +191,9 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
     unit_factor = 25.4 if imperial else 1
     for bit in split_raw:
         code = bit[0]
-        if code not in gcode_parsed_nonargs and bit[1]:
-            setattr(line, code, unit_factor * float(bit[1]))
+        value = parse_number(bit[1])
+        if code not in gcode_parsed_nonargs and value is not None:
+            setattr(line, code, unit_factor * value)
 
 
 class Layer(list):
@@ -503,7 +512,9 @@ class GCode(object):
                 elif line.command == "M83":
                     relative_e = True
                 elif line.command[0] == "T":
-                    current_tool = int(line.command[1:])
+                    # free text can look like a tool change without a tool number
+                    if line.command[1:].isdigit():
+                        current_tool = int(line.command[1:])
 
                 if line.command[0] == "G":
                     parse_coordinates(line, split_raw, imperial)
@@ -595,7 +606,7 @@ class GCode(object):
                         z = line.z if line.z is not None else lastz
                         e = line.e if line.e is not None else laste
                         # mm/s vs mm/m => divide by 60
-                        f = line.f / 60.0 if line.f is not None else lastf
+                        f = abs(line.f) / 60.0 if line.f is not None else lastf
 
                         # given last feedrate and current feedrate calculate the
                         # distance needed to achieve current feedrate.
-- 
2.43.0


From 907512ad381770262333c44ea1a9be49de68a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 03/42] fix: G28 homes exactly the axes it names

---
 gcodeutils/gcoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 7ecff9c..33d86c9 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -542,14 +542,16 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    # axes are only named, they may come without any value
+                    homed = [bit[0] for bit in split_raw if bit[0] in ("x", "y", "z")]
+                    home_all = not homed
+                    if home_all or "x" in homed:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in homed:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in homed:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From e10dca563d57799752524736a3a356693d11dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 04/42] fix: track the axes and the extruder through G92 with E
 or without any word

---
 gcodeutils/filter/arc_optimizer.py |  5 +++--
 gcodeutils/gcoder.py               | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..33eb97c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,13 +308,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
-            op1.e=self.queue[0].current_e+arc_extrusion_length
+            op1.e = end_point.e - extrusions['total']['filament'] + arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
-                op2.e = op2.current_e = end_point.current_e
+                op2.e = end_point.e
+                op2.current_e = end_point.current_e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 33d86c9..96dc6a3 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -556,9 +556,12 @@ class GCode(object):
                         current_z = self.home_z
 
                 elif line.command == "G92":
-                    if line.x is not None: offset_x = current_x - line.x
-                    if line.y is not None: offset_y = current_y - line.y
-                    if line.z is not None: offset_z = current_z - line.z
+                    # no coordinate given is equivalent to all 0
+                    set_all = line.x is None and line.y is None and line.z is None and line.e is None
+                    if set_all or line.x is not None: offset_x = current_x - (line.x or 0)
+                    if set_all or line.y is not None: offset_y = current_y - (line.y or 0)
+                    if set_all or line.z is not None: offset_z = current_z - (line.z or 0)
+                    if set_all or line.e is not None: offset_e = current_e - (line.e or 0)
 
                 line.current_x = current_x
                 line.current_y = current_y
@@ -579,8 +582,6 @@ class GCode(object):
                             current_e = new_e
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
-                    elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 5834d62a5a8fffe4259e06e56da0b418448ecd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 05/42] fix: record the printed heights the extruding moves are
 really at

---
 gcodeutils/gcoder.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 96dc6a3..5af2932 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -581,7 +581,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
@@ -671,12 +670,15 @@ class GCode(object):
                             totalduration += moveduration
 
                     # FIXME : looks like this needs to be tested with "lift Z on move"
-                    if line.z is not None:
+                    if line.command == "G92" and set_all:
+                        cur_z = 0
+                    elif line.z is not None:
                         if line.command == "G92":
                             cur_z = line.z
                         elif line.is_move:
                             if line.relative and cur_z is not None:
-                                cur_z += line.z
+                                # don't let rounding errors make another height out of a height already known
+                                cur_z = round(cur_z + line.z, 6)
                             else:
                                 cur_z = line.z
 
@@ -707,7 +709,7 @@ class GCode(object):
                             new_layer.duration = totalduration - layerbeginduration
                             layerbeginduration = totalduration
                             all_layers.append(new_layer)
-                            if cur_layer_has_extrusion and prev_z not in all_zs:
+                            if cur_layer_has_extrusion and prev_z is not None and prev_z not in all_zs:
                                 all_zs.add(prev_z)
                             cur_lines = []
                             cur_layer_has_extrusion = False
@@ -719,6 +721,10 @@ class GCode(object):
 
                         prev_base_z = base_z
 
+                    # a move changing the height already belongs to the layer it begins
+                    if line.is_move and line.extruding:
+                        cur_layer_has_extrusion = True
+
             if build_layers:
                 cur_lines.append(true_line)
                 layer_idxs.append(layer_id)
@@ -757,7 +763,7 @@ class GCode(object):
                 new_layer.duration = totalduration - layerbeginduration
                 layerbeginduration = totalduration
                 all_layers.append(new_layer)
-                if cur_layer_has_extrusion and prev_z not in all_zs:
+                if cur_layer_has_extrusion and prev_z is not None and prev_z not in all_zs:
                     all_zs.add(prev_z)
 
             self.append_layer_id = len(all_layers)
-- 
2.43.0


From fce390b489824da32b1a9afe2c04b33d1c027636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 06/42] fix: estimate the duration from real positions in
 relative moves and after G92

---
 gcodeutils/gcoder.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5af2932..61dfad4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -603,10 +603,11 @@ class GCode(object):
 
                     # Compute duration
                     if line.command == "G0" or line.command == "G1":
-                        x = line.x if line.x is not None else lastx
-                        y = line.y if line.y is not None else lasty
-                        z = line.z if line.z is not None else lastz
-                        e = line.e if line.e is not None else laste
+                        # rely on the tracked position, which accounts for relative moves and offsets
+                        x = line.current_x
+                        y = line.current_y
+                        z = line.current_z
+                        e = line.current_e
                         # mm/s vs mm/m => divide by 60
                         f = abs(line.f) / 60.0 if line.f is not None else lastf
 
@@ -633,9 +634,9 @@ class GCode(object):
                         currenttravel = math.hypot(dx, dy)
                         if currenttravel == 0:
                             if line.z is not None:
-                                currenttravel = abs(line.z) if line.relative else abs(line.z - lastz)
+                                currenttravel = abs(z - lastz)
                             elif line.e is not None:
-                                currenttravel = abs(line.e) if line.relative_e else abs(line.e - laste)
+                                currenttravel = abs(e - laste)
                         # Feedrate hasn't changed, no acceleration/decceleration planned
                         if f == lastf:
                             moveduration = currenttravel / f if f != 0 else 0.
@@ -658,10 +659,6 @@ class GCode(object):
 
                         totalduration += moveduration
 
-                        lastx = x
-                        lasty = y
-                        lastz = z
-                        laste = e
                         lastf = f
                     elif line.command == "G4":
                         moveduration = P(line)
@@ -669,6 +666,12 @@ class GCode(object):
                             moveduration /= 1000.0
                             totalduration += moveduration
 
+                    # other commands (arcs, homing) move the head too
+                    lastx = line.current_x
+                    lasty = line.current_y
+                    lastz = line.current_z
+                    laste = line.current_e
+
                     # FIXME : looks like this needs to be tested with "lift Z on move"
                     if line.command == "G92" and set_all:
                         cur_z = 0
-- 
2.43.0


From ff6d2fd13a86e48345e9c35e59c46e97a5cad32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 07/42] fix: keep comments and other parameters when rewriting
 a line

---
 gcodeutils/gcoder.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 61dfad4..3118eff 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -28,6 +28,7 @@ gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
 gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.?[0-9]*)" % to_parse)
+leftover_exp = re.compile("(\([^\(\)]*\)|;.*)|([a-zA-Z])([-+]?[0-9]*\.?[0-9]*)")
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
@@ -172,14 +173,26 @@ def split(line):
     return split_raw
 
 
+def get_leftover(raw):
+    """Return the comments and the parameters of a raw line which are not parsed into the attributes of a line"""
+    leftover = ""
+    for comment, code, value in leftover_exp.findall(raw):
+        if comment:
+            leftover += " " + comment
+        elif code.lower() not in to_parse:
+            leftover += " " + code + value
+    return leftover
+
+
 def unsplit(line):
+    leftover = get_leftover(line.raw) if line.raw else ""
     format = ""
     arg = []
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    line.raw = line.command + format.format(*arg) + leftover
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From f293de48c5ea820b09e480eb17a5c4a5f166eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 08/42] fix: rewrite the lines of an inch program in inches

---
 gcodeutils/filter/arc_optimizer.py |  2 ++
 gcodeutils/gcoder.py               | 17 +++++++++++++----
 gcodeutils/stretch/stretch.py      |  3 ++-
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 33eb97c..6577599 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -289,6 +289,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         error, circle = self.get_circle()
         extrusions = self.get_distances()
         op1 = Line()
+        op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         op1.x = round(circle.end.x, 3)
@@ -313,6 +314,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
+                op2.imperial = end_point.imperial
                 op2.command="G92"
                 op2.e = end_point.e
                 op2.current_e = end_point.current_e
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 3118eff..1fc4be7 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -36,6 +36,8 @@ move_gcodes = ["G0", "G1", "G2", "G3"]
 linear_move_gcodes = ["G0", "G1"]
 gcode_possible_arguments = ['x', 'y', 'z', 'e', 'f', 'i', 'j']
 
+MM_PER_INCH = 25.4
+
 GCODE_ABSOLUTE_POSITIONING_COMMAND = 'G90'
 GCODE_RELATIVE_POSITIONING_COMMAND = 'G91'
 GCODE_SET_POSITION_COMMAND = 'G92'
@@ -47,7 +49,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
                  'raw', 'command', 'is_move',
-                 'relative', 'relative_e',
+                 'relative', 'relative_e', 'imperial',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
                  'gcview_end_vertex')
@@ -190,8 +192,14 @@ def unsplit(line):
     arg = []
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
-            format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
-            arg += [bit.upper(), getattr(line, bit)]
+            value = getattr(line, bit)
+            if line.imperial:
+                # values are in millimetres, write them in the unit of the program, with a matching precision
+                format += " {}{:.7f}" if bit == 'e' else " {}{:.5f}"
+                value /= MM_PER_INCH
+            else:
+                format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
+            arg += [bit.upper(), value]
     line.raw = line.command + format.format(*arg) + leftover
 
 
@@ -201,7 +209,8 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
         return
     if not force and line.command[0] != "G":
         return
-    unit_factor = 25.4 if imperial else 1
+    unit_factor = MM_PER_INCH if imperial else 1
+    line.imperial = imperial
     for bit in split_raw:
         code = bit[0]
         value = parse_number(bit[1])
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..43de48a 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -331,7 +331,7 @@ class StretchFilter:
             self.current_layer = current_layer[:]
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
@@ -428,6 +428,7 @@ class StretchFilter:
 
         result = Line()
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From b4eabd8eab840be9c53edda5d20b75f82d7b54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 09/42] fix: programs of different lengths are never equal

---
 gcodeutils/gcoder.py | 39 +++++++++++++--------------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 1fc4be7..b2b11f7 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -841,8 +841,8 @@ class GCode(object):
         if not isinstance(other, GCode):
             raise ValueError
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
 
         for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
             # checking the raw representation of lines is a bit naive
@@ -850,17 +850,12 @@ class GCode(object):
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
+        # check that no program goes on after the end of the other
+        common = min(len(meaningful_lines1), len(meaningful_lines2))
+        if len(meaningful_lines1) > common:
+            return "Remaining line(s) for self: '{}'".format(meaningful_lines1[common])
+        if len(meaningful_lines2) > common:
+            return "Remaining line(s) for other: '{}'".format(meaningful_lines2[common])
 
         return None
 
@@ -868,8 +863,11 @@ class GCode(object):
         if not isinstance(other, GCode):
             return False
 
-        meaningful_lines1 = self.comment_stripper_generator()
-        meaningful_lines2 = other.comment_stripper_generator()
+        meaningful_lines1 = list(self.comment_stripper_generator())
+        meaningful_lines2 = list(other.comment_stripper_generator())
+
+        if len(meaningful_lines1) != len(meaningful_lines2):
+            return False
 
         for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
@@ -877,17 +875,6 @@ class GCode(object):
             if l1 != l2:
                 return False
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From dc734f2406d64a866e315ed30e103fc676d2555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 10/42] fix: index of an appended line in its layer

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index b2b11f7..d08fa31 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -430,7 +430,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From aa3f7e44260d04ad13c2bd97808a77032bba9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 11/42] fix: translate correctly through G92, G28 and relative
 moves

---
 gcodeutils/filter/translate.py | 89 ++++++++++++++++++++++------------
 gcodeutils/gcoder.py           |  1 +
 2 files changed, 58 insertions(+), 32 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..c4c9001 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -2,7 +2,7 @@ import logging
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import move_gcodes, split, unsplit, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
-    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, Line, raw_to_line
+    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, GCODE_HOME_COMMAND, MM_PER_INCH, raw_to_line
 
 __author__ = 'olivier'
 
@@ -14,12 +14,24 @@ class GCodeXYTranslateFilter(GCodeFilter):
         self.translate_x = x or 0.
         self.translate_y = y or 0.
 
-        self.first_move_after_home = False
+        # part of the translation which absolute coordinates have to include (none once G92 has set a reference point
+        # accounting for the translation)
+        self.pending_x = self.translate_x
+        self.pending_y = self.translate_y
+
+        # how far the head is from the place it would be at in the original program
+        self.head_x = self.head_y = 0.
 
         self.absolute_distance_mode = None  # None if when it is unknown
 
-    def generate_translation(self):
-        return raw_to_line("G0 X%.4f Y%.4f" % (self.translate_x, self.translate_y))
+    def generate_translation(self, imperial=False):
+        """Return the relative move bringing the head to its translated place"""
+        unit = MM_PER_INCH if imperial else 1
+        return raw_to_line("G0 X%.5f Y%.5f" % ((self.translate_x - self.head_x) / unit,
+                                               (self.translate_y - self.head_y) / unit))
+
+    def is_translated(self):
+        return self.head_x == self.translate_x and self.head_y == self.translate_y
 
     def opcode_filter(self, opcode):
         if opcode.command in move_gcodes:
@@ -31,20 +43,25 @@ class GCodeXYTranslateFilter(GCodeFilter):
             if not self.absolute_distance_mode:
 
                 # we're in relative mode, if the first move after a homing, translate quickly
-                if self.first_move_after_home:
-                    self.first_move_after_home = False
-                    return [self.generate_translation(), opcode]
+                if (opcode.x is not None or opcode.y is not None) and not self.is_translated():
+                    translation = self.generate_translation(opcode.imperial)
+                    self.head_x, self.head_y = self.translate_x, self.translate_y
+                    return [translation, opcode]
 
                 return
 
             # at this point, we're an absolute move, we have to "hard patch" coordinate
-            if opcode.x is not None and self.translate_x:
-                opcode.x += self.translate_x
-                unsplit(opcode)
+            if opcode.x is not None:
+                self.head_x = self.translate_x
+                if self.pending_x:
+                    opcode.x += self.pending_x
+                    unsplit(opcode)
 
-            if opcode.y is not None and self.translate_y:
-                opcode.y += self.translate_y
-                unsplit(opcode)
+            if opcode.y is not None:
+                self.head_y = self.translate_y
+                if self.pending_y:
+                    opcode.y += self.pending_y
+                    unsplit(opcode)
 
             return opcode
 
@@ -56,26 +73,34 @@ class GCodeXYTranslateFilter(GCodeFilter):
             self.absolute_distance_mode = False
             return
 
-        if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
-                # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
-
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
-
-                unsplit(opcode)
-                return opcode
+        if opcode.command == GCODE_HOME_COMMAND:
+            # homed axes are back to the machine reference, the whole translation has to be done again
+            homed = [bit[0] for bit in split(opcode) if bit[0] in ('x', 'y', 'z')]
+            if not homed or 'x' in homed:
+                self.head_x, self.pending_x = 0., self.translate_x
+            if not homed or 'y' in homed:
+                self.head_y, self.pending_y = 0., self.translate_y
+            return
 
-            if opcode.x is not None:
-                opcode.x -= self.translate_x
-                self.translate_x = 0
+        if opcode.command == GCODE_SET_POSITION_COMMAND:
+            set_all = opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None
 
-            if opcode.y is not None:
-                opcode.y -= self.translate_y
-                self.translate_y = 0
+            if set_all and not self.is_translated():
+                # no coordinate given is equivalent to all 0
+                opcode.x = opcode.y = opcode.z = opcode.e = 0.
+
+            # from now on, there is a new reference point: if the head isn't translated yet, translate the reference
+            # point instead, and there's nothing left to do until the axis is homed again
+            if opcode.x is not None or set_all:
+                if opcode.x is not None and self.head_x != self.translate_x:
+                    opcode.x -= self.translate_x - self.head_x
+                    unsplit(opcode)
+                self.pending_x = 0.
+
+            if opcode.y is not None or set_all:
+                if opcode.y is not None and self.head_y != self.translate_y:
+                    opcode.y -= self.translate_y - self.head_y
+                    unsplit(opcode)
+                self.pending_y = 0.
 
-            unsplit(opcode)
             return opcode
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index d08fa31..7c4a931 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -41,6 +41,7 @@ MM_PER_INCH = 25.4
 GCODE_ABSOLUTE_POSITIONING_COMMAND = 'G90'
 GCODE_RELATIVE_POSITIONING_COMMAND = 'G91'
 GCODE_SET_POSITION_COMMAND = 'G92'
+GCODE_HOME_COMMAND = 'G28'
 
 GCODE_ABSOLUTE_EXTRUSION_COMMAND = 'M82'
 GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
-- 
2.43.0


From 1b5246b03ed3b9e9a78d160011a916e148377f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 12/42] fix: keep track of the extrusion made in relative mode
 when converting to relative extrusion

---
 gcodeutils/filter/relative_extrusion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..b0fa5b5 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -32,6 +32,11 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
+        if opcode.command in move_gcodes and self.relative_extrusion and opcode.e is not None:
+            # already relative, but the absolute extrusion still has to be known should the program go back to it
+            self.current_extrusion_distance += Decimal(opcode.e)
+            return
+
         if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
-- 
2.43.0


From 3a28154becc2215b41e532eedb1979c2092a2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 13/42] fix: give the right index to layers with the same
 content when visiting

---
 gcodeutils/visit/iterator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..03265b4 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From b7d3dd17824e3cb3e92cd3a944ef04f2aed7eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 14/42] fix: import of the temperature calibration tool on
 Python 3

---
 gcodeutils/gcode_tempcal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..46712ad 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
-- 
2.43.0


From f97791c31b17aa2e210742430da790646e34f455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 15/42] fix: keep the temperature gradient above the minimum
 height

---
 gcodeutils/gcode_tempcal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 46712ad..93c90c1 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and self.min_z_change < current_z and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
-- 
2.43.0


From 59d83c01391a1754678dbf6675ebc34cd37b8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 16/42] fix: step the temperature from the start to the end
 temperature in stepped gradients

---
 gcodeutils/gcode_tempcal.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 93c90c1..40f2489 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -131,14 +131,14 @@ class GCodeStepTempGradient(GCodeTempGradient):
         super(GCodeStepTempGradient, self).__init__(gcode, **kwargs)
         self.steps = kwargs['steps']
 
-        self.step_end_temp = self.end_temp + (self.end_temp - self.start_temp) / self.steps
-        self.steps += 1
-
-        self.max_temp = max(self.end_temp, self.start_temp)
+        # each step raises or lowers the temperature, making one more height band than steps
+        self.temp_per_step = (self.end_temp - self.start_temp) / self.steps
+        self.bands = self.steps + 1
 
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        # the highest point belongs to the last band
+        band = min(int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.bands), self.steps)
+        return self.start_temp + band * self.temp_per_step
 
 
 def main():
@@ -168,7 +168,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 233755e36a0b1c460f32d8d6aaf81d2cf949cec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 17/42] fix: keep the program when the temperature plugin fails

---
 cura_plugins/tempcal_plugin.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..7b4b224 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -11,6 +11,12 @@
 # just copy gcodeutils into the plugins directory instead of installing it
 # no twinkles for you, ultimaker
 import sys
+
+try:
+    from StringIO import StringIO
+except ImportError:
+    from io import StringIO
+
 sys.path.append('plugins')
 
 from gcodeutils.gcode_tempcal import GCodeStepTempGradient
@@ -19,6 +25,10 @@ from gcodeutils.gcoder import GCode
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
+# build the whole result before touching the original program, which is kept if no gradient can be made
+result = StringIO()  # pylint: disable=invalid-name
+GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
+                      steps=steps).write(result)  # pylint: disable=undefined-variable
+
 with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+    gcode_file.write(result.getvalue())
-- 
2.43.0


From ac546fe248f777017e2bfe4ec36227d0ad2882bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:55 +0000
Subject: [PATCH 18/42] fix: keep comments, arcs and other commands in place
 when optimising arcs

---
 gcodeutils/filter/arc_optimizer.py | 83 +++++++++++-------------------
 1 file changed, 29 insertions(+), 54 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 6577599..d334363 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -107,19 +107,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             diff -= 2 * cmath.pi
         return diff
 
-    def opcode_filter(self, opcode):
-        """
-        default implementation of the opcode filter
-        :param opcode: the gcode of the current line
-        :return: the modified opcode
-        """
-        return opcode
-
     def parse_gcode(self, gcode, opcode_filter):
         for layer in gcode.all_layers:
             self.parse_layer(layer, opcode_filter)
-        if len(self.queue) > 0:
-            layer += self.queue
+        layer += self.flush()
 
     def get_circle_least_squares(self):
         """
@@ -283,7 +274,6 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :return: the gcode command
         """
         result=[self.queue[0]]
-        last = self.queue.pop()
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
@@ -324,8 +314,6 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.f = end_point.current_f
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
-        self.valid_circle = False
-        result.append(last)
         logger.info(" generated arc from %s segments" % (count - 1))
         logger.debug("arc is "+str(circle))
         return result
@@ -336,44 +324,31 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
-            opcode.current_x  =self.queue[-1].current_x
-            opcode.current_y = self.queue[-1].current_y
-            opcode.current_z = self.queue[-1].current_z
-            opcode.current_e = self.queue[-1].current_e
-            opcode.current_f = self.queue[-1].current_f
+        if opcode.command not in linear_move_gcodes:
+            # anything but a straight move ends the current arc and keeps its place behind it
+            return self.flush() + [opcode]
         self.queue.append(opcode)
-        count = len(self.queue)
-        if count > MIN_SEGMENTS:
-            if not self.queue[-1].command in move_gcodes:
-                if self.valid_circle:
-                    # the last element inserted invalidated the circle, so process & flush
-                    result = self.to_gcode()
-                else:
-                    # flush the queue as we have a GCode resetting the processing
-                    result = self.queue
-                self.queue = []
-                return result
-            else:
-                error, circle = self.queue_valid()
-                if error:
-                    if self.valid_circle:
-                        # the last element inserted invalidated the circle
-                        result = self.to_gcode()
-                        # since last elem was a move keep it in the queue
-                        self.queue = [result.pop()]
-                        return result
-                    else:
-                        return self.queue.pop(0)
-                else:
-                    self.valid_circle = True
-                    return []
-        else:
-            if self.queue[-1].command in move_gcodes or self.queue[-1].command is None:
-                return []
-            else:
-                # flush the queue as we have a GCode resetting the processing
-                result = self.queue
-                self.queue = []
-                self.valid_circle = False
-                return result
+        if len(self.queue) <= MIN_SEGMENTS:
+            return []
+        error, circle = self.queue_valid()
+        if not error:
+            self.valid_circle = True
+            return []
+        if self.valid_circle:
+            # the last element inserted invalidated the circle
+            self.queue.pop()
+            result = self.flush()
+            # since last elem was a move keep it in the queue
+            self.queue = [opcode]
+            return result
+        return [self.queue.pop(0)]
+
+    def flush(self):
+        """
+        empty the queue
+        :return: the gcode commands standing for the content of the queue
+        """
+        result = self.to_gcode() if self.valid_circle else self.queue
+        self.queue = []
+        self.valid_circle = False
+        return result
-- 
2.43.0


From 14b256c09963db7f1de66994c87c97d3c522a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:21 +0000
Subject: [PATCH 19/42] fix: only make arcs out of moves which follow the arc
 forwards, at one height

---
 gcodeutils/filter/arc_optimizer.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index d334363..1d1d89c 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -138,7 +138,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        # aligned points don't make any circle
+        alignment = ((-(suv * suv)) / suu) + svv
+        if alignment < EPSILON:
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / alignment
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -201,8 +205,16 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         radius_err = self.get_circle_radius_errors(circle)
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
+        # all steps have to go forward, and to stop before passing over the start point
+        sweep = [phase if circle.direction > 0 else -phase for phase in self.get_phase_diffs(circle)]
+        if min(sweep) <= 0 or sum(sweep) > 2 * cmath.pi + EPSILON:
+            return True, circle
+        # almost a full circle is too close to almost nothing once rounded
+        gap = circle.start.distance_to(circle.end)
+        if sum(sweep) > cmath.pi and EPSILON < gap < ALIGNMENT_ERROR:
+            return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        return any([abs(error) > PHASE_ERROR for error in angle_err]), circle
 
     def get_distances(self):
         """
@@ -240,7 +252,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] >= EPSILON:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
@@ -255,12 +268,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-        valid_z = all([line.current_z == cur_z for line in self.queue[1:]])
+        # the first move has to be at the same height too, as the arc starts there
+        valid_z = all([line.current_z == cur_z for line in self.queue])
         if not (valid_e and valid_f and valid_z):
             return True, None
         if all_e:
             extrusions = self.get_distances()
-            if extrusions['avg']['ratio'] < EPSILON:
+            if extrusions['total']['path'] < EPSILON or extrusions['avg']['ratio'] < EPSILON:
                 return True, None
             valid = all(abs((curext / extrusions['avg']['ratio']) - 1) < EXTRUSION_ERROR for curext in
                         extrusions['ratio'].values())
-- 
2.43.0


From ca17a39b0cb7e9920bf486f5dba3d0c8638bed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 20/42] fix: write arcs in the coordinates of the program in
 relative mode and after G92

---
 gcodeutils/filter/arc_optimizer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 1d1d89c..af54cd5 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -282,6 +282,14 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 return True, None
         return self.get_circle()
 
+    def get_offset(self):
+        """
+        find out the offset set by G92 between the machine position and the coordinates of the program
+        :return: the machine position of the origin of the program
+        """
+        return Point(x=next(line.current_x - line.x for line in self.queue[1:] if line.x is not None),
+                     y=next(line.current_y - line.y for line in self.queue[1:] if line.y is not None))
+
     def to_gcode(self):
         """
         translate a sequence of segments into a circular gcode command
@@ -296,8 +304,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        # positions are machine ones, write the coordinates the program uses
+        if end_point.relative:
+            origin = circle.start
+        else:
+            origin = self.get_offset()
+        op1.x = round(circle.end.x - origin.x, 3)
+        op1.y = round(circle.end.y - origin.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.relative_e:
-- 
2.43.0


From 4bf3630341c9b6329fb6b4dc4982424a414206d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 21/42] fix: feed the filament forwards on clockwise arcs and
 none on travel ones

---
 gcodeutils/filter/arc_optimizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index af54cd5..5dd643d 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -240,7 +240,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             if prev is not None:
                 path = round(Point(line.current_x, line.current_y).distance_to(
                     Point(prev.current_x, prev.current_y)), 7)
-                extrusion = line.e if line.relative_e else (line.current_e - prev.current_e)
+                if line.e is None:
+                    extrusion = 0
+                else:
+                    extrusion = line.e if line.relative_e else (line.current_e - prev.current_e)
                 extrusions['total']['filament'] += extrusion
                 extrusions['total']['path'] += path
                 extrusions['filament'][num] = extrusion
@@ -313,7 +316,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round(circle.end.y - origin.y, 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # travel move, there's nothing to extrude
+            pass
+        elif end_point.relative_e:
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
@@ -324,7 +330,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         else:
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
-            arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
+            arc_lens=[ abs(alpha)*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
             op1.e = end_point.e - extrusions['total']['filament'] + arc_extrusion_length
             op1.relative_e=False
@@ -338,7 +344,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        op1.f = end_point.current_f or None
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         logger.info(" generated arc from %s segments" % (count - 1))
-- 
2.43.0


From 918d12bf3b32b889c49afc388f57e5c94420dba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:40 +0000
Subject: [PATCH 22/42] fix: read the Cura profile on Python 3

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 43de48a..e4a2889 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -714,7 +714,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8', 'replace').split('\f', 1)[0]
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From af7a109ddbbfb3c5e712415167c21ba261723763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 23/42] fix: don't print warnings into the stretched program

---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index e4a2889..97196ff 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -148,7 +148,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def index_in_valid_range(self):
@@ -200,7 +200,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -211,7 +211,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -230,7 +230,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -249,7 +249,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -272,7 +272,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From 45aab968535c82a49001ccdae5f4f189299bba1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 24/42] fix: keep the feed rate of stretched moves

---
 gcodeutils/stretch/stretch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 97196ff..ac99789 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -308,7 +308,6 @@ class StretchFilter:
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
-        self.feedRateMinute = 959.0
         self.isLoop = False
         self.oldLocation = None
         self.gcode = None
@@ -387,7 +386,6 @@ class StretchFilter:
     def stretch_line(self, line):
         """Get stretched gcode line."""
         location = get_location_from_line(self.oldLocation, line)
-        self.feedRateMinute = line.f or self.feedRateMinute
         self.oldLocation = location
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
@@ -432,7 +430,7 @@ class StretchFilter:
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-        result.f = self.feedRateMinute
+        result.f = original_line.f
 
         # TODO improve new extrusion length computation. It's clearly a very rough estimate
         if original_line.e is not None:
-- 
2.43.0


From fb78a58a976cae597fcbecb3753fa0f1c9121cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:43 +0000
Subject: [PATCH 25/42] fix: stretch moves giving only one coordinate from
 where they really are, and keep their comments

---
 gcodeutils/stretch/stretch.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index ac99789..af36d08 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -112,6 +112,10 @@ def get_location_from_line(old_location, line):
     if old_location is None:
         old_location = Vector3()
 
+    # coordinates which are not given are known from the moves before this very line
+    if line.is_move and line.current_x is not None:
+        old_location = Vector3(line.current_x, line.current_y, line.current_z)
+
     return Vector3(
         line.x if line.x is not None else old_location.x,
         line.y if line.y is not None else old_location.y,
@@ -424,7 +428,8 @@ class StretchFilter:
         absoluteStretch = relativeStretch * self.thread_maximum_absolute_stretch
         stretchedPoint = location.dropAxis() + absoluteStretch
 
-        result = Line()
+        # comments and other parameters are kept
+        result = Line(original_line.raw)
         result.command = original_line.command
         result.imperial = original_line.imperial
         result.x = stretchedPoint.real
-- 
2.43.0


From feed2462df8ee7b87618700295cb2d4a7d58ea85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 26/42] fix: end wall loops with their layer

---
 gcodeutils/stretch/stretch.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index af36d08..f49fde6 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -565,6 +565,7 @@ class Slic3rStretchFilter(StretchFilter):
 
         edge_width_found = False
         extruding = False
+        unfinished_loop = False
 
         for self.current_layer in self.gcode.all_layers:
             self.next_external_perimeter_is_outer = True
@@ -572,6 +573,11 @@ class Slic3rStretchFilter(StretchFilter):
 
             for line_idx, line in enumerate(self.current_layer):
 
+                # a loop never goes on in the next layer
+                if unfinished_loop:
+                    unfinished_loop = False
+                    line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
+
                 # checking extrusion
                 if not extruding and line.command in linear_move_gcodes and line.e is not None:
                     extruding = True
@@ -617,7 +623,8 @@ class Slic3rStretchFilter(StretchFilter):
                     self.set_edge_width(float(match.group(1)))
 
             if self.current_type_line != self.UNKNOWN:
-                logging.warn("unfinished loop")
+                logging.warning("unfinished loop")
+                unfinished_loop = True
 
         if not edge_width_found:
             logging.warn("no edge width found in comments, picking a default value")
@@ -683,7 +690,8 @@ class CuraStretchFilter(StretchFilter):
                     extruding = False
                     line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
-                if next_line_marker is not None:
+                # a loop never begins on the last line of a layer
+                if next_line_marker is not None and line_idx < len(self.current_layer) - 1:
                     self.new_perimeter(line, *next_line_marker)
                     next_line_marker = None
 
-- 
2.43.0


From e56100dfe53aca48e3c3a63c8cda8d69ae982673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:06 +0000
Subject: [PATCH 27/42] fix: don't stretch the skirt or the support following a
 wall in Cura programs

---
 gcodeutils/stretch/stretch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index f49fde6..914ebd5 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -708,7 +708,8 @@ class CuraStretchFilter(StretchFilter):
                     self.stop_loop(line)
                     next_line_marker = (False, False)
 
-                elif 'TYPE:FILL' in line.raw:
+                elif 'TYPE:' in line.raw:
+                    # fill, skirt, support...
                     self.stop_loop(line)
 
                 # end loop if we reach the end of the current layer
-- 
2.43.0


From 620565257e9878ac6e9477f442a2caa777bcc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 28/42] fix: keep the comment of M82 when converting to
 relative extrusion

---
 gcodeutils/filter/relative_extrusion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index b0fa5b5..6a9c19b 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -3,7 +3,7 @@ from decimal import Decimal
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
     GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
-    GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
+    GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit, get_leftover
 
 __author__ = 'olivier'
 
@@ -20,7 +20,8 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
         if opcode.command == GCODE_ABSOLUTE_EXTRUSION_COMMAND:
             self.relative_extrusion = False
-            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
+            # keep what comes along with the command
+            return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND + get_leftover(opcode.raw))
 
         if opcode.command == GCODE_SET_POSITION_COMMAND:
 
-- 
2.43.0


From 5c7657b5fe3330e68fbe60f13498887e7d1c8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 29/42] fix: close full circles exactly when writing them as
 arcs

---
 gcodeutils/filter/arc_optimizer.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 5dd643d..c617d61 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, linear_move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, unsplit, MM_PER_INCH
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -211,7 +211,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             return True, circle
         # almost a full circle is too close to almost nothing once rounded
         gap = circle.start.distance_to(circle.end)
-        if sum(sweep) > cmath.pi and EPSILON < gap < ALIGNMENT_ERROR:
+        if (2 * cmath.pi - sum(sweep)) * circle.radius < ALIGNMENT_ERROR and not (
+                gap <= EPSILON and self.end_is_exact(circle)):
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
         return any([abs(error) > PHASE_ERROR for error in angle_err]), circle
@@ -293,6 +294,21 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         return Point(x=next(line.current_x - line.x for line in self.queue[1:] if line.x is not None),
                      y=next(line.current_y - line.y for line in self.queue[1:] if line.y is not None))
 
+    def end_is_exact(self, circle):
+        """
+        check if writing the end of the arc, with a limited number of decimals, doesn't move it
+        :param circle: the arc
+        :return: True if the end point is written exactly
+        """
+        end_point = self.queue[-1]
+        if end_point.relative:
+            origin = circle.start
+        else:
+            origin = self.get_offset()
+        unit, decimals = (MM_PER_INCH, 5) if end_point.imperial else (1, 3)
+        return all(abs(round(value / unit, decimals) * unit - value) < EPSILON
+                   for value in (circle.end.x - origin.x, circle.end.y - origin.y))
+
     def to_gcode(self):
         """
         translate a sequence of segments into a circular gcode command
@@ -312,10 +328,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             origin = circle.start
         else:
             origin = self.get_offset()
-        op1.x = round(circle.end.x - origin.x, 3)
-        op1.y = round(circle.end.y - origin.y, 3)
-        op1.i = round(circle.center.x - circle.start.x, 3)
-        op1.j = round(circle.center.y - circle.start.y, 3)
+        op1.x = circle.end.x - origin.x
+        op1.y = circle.end.y - origin.y
+        op1.i = circle.center.x - circle.start.x
+        op1.j = circle.center.y - circle.start.y
         if end_point.e is None:
             # travel move, there's nothing to extrude
             pass
-- 
2.43.0


From 96ca41b21684c544c9ea052c0ddcd6d7e4a16299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 30/42] fix: correct the extruder position after arcs shorter
 than their moves too

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index c617d61..98bdd40 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -351,7 +351,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             op1.e = end_point.e - extrusions['total']['filament'] + arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
-            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
+            if abs(rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.imperial = end_point.imperial
                 op2.command="G92"
-- 
2.43.0


From 48fcd73fe68cc2e5ebaca1e13180e131cb52d226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 31/42] fix: compare summed up heights exactly and write
 nothing for an unsafe temperature

---
 gcodeutils/gcode_tempcal.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 40f2489..a629dcd 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -19,13 +19,16 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
     ABSOLUTE_MIN_TEMPERATURE = 150
     ABSOLUTE_MAX_TEMPERATURE = 250
 
+    # heights summed up from relative moves aren't exact
+    Z_DIGITS = 6
+
     def __init__(self, gcode, start_temp, end_temp, min_z_change, **kwargs):
         self.gcode = gcode
         self.start_temp = start_temp
         self.end_temp = end_temp
         self.min_z_change = min_z_change
 
-        self.zmax = gcode.zmax
+        self.zmax = round(gcode.zmax, self.Z_DIGITS)
         self.zmin = None
 
         self.last_target_temperature = None
@@ -44,13 +47,18 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
         return ""
 
+    def get_layer_z(self, layer):
+        """Return the height of a layer holding instructions, or None if it is unknown"""
+        current_z = layer[0].current_z
+        return round(current_z, self.Z_DIGITS) if current_z is not None else None
+
     def _parse_gcode(self):
         """parse gcode to detect Z bounds"""
         for layer_idx, layer in enumerate(self.gcode.all_layers):
 
             # don't parse layer without any instruction
             if layer:
-                current_z = layer[0].current_z
+                current_z = self.get_layer_z(layer)
 
                 if current_z is not None:
                     logging.debug("layer #%d altitude is %.2fmm", layer_idx, current_z)
@@ -83,7 +91,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
         for layer_idx, layer in enumerate(self.gcode.all_layers):
 
             if layer:
-                self.current_z = layer[0].current_z
+                self.current_z = self.get_layer_z(layer)
 
                 if self.current_z and self.zmin <= self.current_z <= self.zmax:
 
@@ -93,11 +101,14 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                         # don't generate temperature change if same as last layer
                         if target_temp != self.last_target_temperature:
-                            self.last_target_temperature = target_temp
-
                             logging.debug("target temp for layer #%d (height %.2fmm) is %.1f°C", layer_idx,
                                           self.current_z, target_temp)
-                            print(self.generate_temperature_gcode(target_temp), file=output_file)
+                            temperature_gcode = self.generate_temperature_gcode(target_temp)
+
+                            # nothing is set when the temperature isn't a safe one
+                            if temperature_gcode:
+                                self.last_target_temperature = target_temp
+                                print(temperature_gcode, file=output_file)
 
                 for line in layer:
                     print(line.raw, file=output_file)
-- 
2.43.0


From eecf341a8aa0c6273593836dfb13b2d0014d3bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:44 +0000
Subject: [PATCH 32/42] fix: a dwell never takes a negative time

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 7c4a931..d987ee4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -685,7 +685,7 @@ class GCode(object):
                         lastf = f
                     elif line.command == "G4":
                         moveduration = P(line)
-                        if moveduration:
+                        if moveduration and moveduration > 0:
                             moveduration /= 1000.0
                             totalduration += moveduration
 
-- 
2.43.0


From 372d2c0fcb8870abc559c379865b285870502b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:45 +0000
Subject: [PATCH 33/42] fix: open the program to summarise on Python 3.11

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index d987ee4..e01ea99 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -897,7 +897,7 @@ def main():
 
     print("Line object size:", sys.getsizeof(Line("G0 X0")))
     print("Light line object size:", sys.getsizeof(LightLine("G0 X0")))
-    gcode = GCode(open(sys.argv[1], "rU"))
+    gcode = GCode(open(sys.argv[1], "r"))
 
     print("Dimensions:")
     xdims = (gcode.xmin, gcode.xmax, gcode.width)
-- 
2.43.0


From 1df4bffff8d28e0340549fad50b89228d43289c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 34/42] fix: keep the points of a wall loop within the loop
 when stretching

---
 gcodeutils/stretch/stretch.py | 113 +++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 914ebd5..bd0121c 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -139,7 +139,6 @@ class LineIteratorForwardLegacy(object):
         self.first_visited_index = None
         self.lines = lines
         self.increment = 1
-        self.stop_on_extrusion_off = True
 
         self.logger.debug("started iterator with line_index = %d", self.line_index)
 
@@ -172,7 +171,7 @@ class LineIteratorForwardLegacy(object):
                 self.first_visited_index = self.line_index
 
             line = self.lines[self.line_index]
-            if StretchFilter.EXTRUSION_OFF_MARKER in line.raw and self.stop_on_extrusion_off:
+            if StretchFilter.EXTRUSION_OFF_MARKER in line.raw:
                 self.line_index = self.reset_index_on_limit()
                 continue
 
@@ -208,76 +207,74 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         raise StopIteration("You've reached the end of the line.")
 
 
-class LineIteratorForward(LineIteratorForwardLegacy):
-    def reset_index_on_limit(self):
-        """Get index just after the activate command."""
-        self.logger.debug("reset index forward (modern)")
-        for lineIndex in xrange(self.line_index - 1, -1, - 1):
-            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
-                return lineIndex + 1
-        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+def is_loop_limit(line):
+    """Tell whether a line ends the loop before it"""
+    return StretchFilter.LOOP_START_MARKER in line.raw or StretchFilter.LOOP_STOP_MARKER in line.raw
 
 
-class CuraLineIteratorForward(LineIteratorForwardLegacy):
-    def __init__(self, line_index, lines):
-        super(CuraLineIteratorForward, self).__init__(line_index, lines)
-        self.stop_on_extrusion_off = False
+class LineIteratorForward(object):
+    """Visit the points following a line in its loop, going on from the end of the loop to its beginning."""
 
-    def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
-            self.line_index = self.reset_index_on_limit()
+    # number of moves at the beginning of the loop which go to the place where it ends
+    start_moves = 1
 
-    def reset_index_on_limit(self):
-        """Get index just after the activate command."""
-        self.logger.debug("reset index forward (modern)")
-        for lineIndex in xrange(self.line_index - 1, -1, - 1):
-            if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
-                return lineIndex
-        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
-
-
-class LineIteratorBackward(LineIteratorBackwardLegacy):
-    def index_setup(self):
-        if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+    def __init__(self, line_index, lines):
+        self.lines = lines
+        self.points = self.visit(line_index - 1)
 
-    def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
+    def get_next(self):
+        """Get next point or raise exception."""
+        return next(self.points)
+
+    def find_limit(self, point_index):
+        """Get the index of the line ending the loop"""
+        for line_index in xrange(point_index + 1, len(self.lines)):
+            if is_loop_limit(self.lines[line_index]):
+                return line_index
+        return len(self.lines)
+
+    def find_start(self, point_index):
+        """Get the index of the line beginning the loop"""
+        for line_index in xrange(point_index, -1, -1):
+            if StretchFilter.LOOP_START_MARKER in self.lines[line_index].raw:
+                return line_index
+        return 0
+
+    def filter_points(self, line_indices):
+        """Get the lines which are points"""
+        for line_index in line_indices:
+            line = self.lines[line_index]
+            if line.command in linear_move_gcodes and (line.x is not None or line.y is not None):
+                yield line
 
-        self.logger.debug("reset index backward (modern)")
+    def visit(self, point_index):
+        for line in self.filter_points(xrange(point_index + 1, self.find_limit(point_index))):
+            yield line
+        for line in self.filter_points(xrange(self.find_start(point_index) + self.start_moves, point_index + 1)):
+            yield line
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
-            if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
-                return lineIndex - 2
-        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
 
+class LineIteratorBackward(LineIteratorForward):
+    """Visit the points preceding a line in its loop, going on from the beginning of the loop to its end."""
 
-class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
     def __init__(self, line_index, lines):
-        super(CuraLineIteratorBackward, self).__init__(line_index, lines)
-        self.stop_on_extrusion_off = False
+        super(LineIteratorBackward, self).__init__(line_index + 2, lines)
 
-    def index_setup(self):
-        if self.line_index < 0:
-            self.line_index = self.reset_index_on_limit()
-        elif StretchFilter.LOOP_START_MARKER in self.lines[self.line_index + 1].raw:  # if just before a loop start
-            self.line_index = self.reset_index_on_limit()
+    def visit(self, point_index):
+        for line in self.filter_points(xrange(point_index - 1, self.find_start(point_index) - 1, -1)):
+            yield line
+        end_points = self.filter_points(xrange(self.find_limit(point_index) - 1, point_index - 1, -1))
+        for position, line in enumerate(end_points):
+            if position >= self.start_moves:
+                yield line
 
-    def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
 
-        self.logger.debug("reset index backward (modern)")
+class CuraLineIteratorForward(LineIteratorForward):
+    start_moves = 0
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
-            if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
-                return lineIndex - 1
-        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+
+class CuraLineIteratorBackward(LineIteratorBackward):
+    start_moves = 0
 
 
 class StretchRepository:
-- 
2.43.0


From e42ac3e5e84d3379188881ee8a8985e8c1918f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 35/42] fix: read the Cura profile on the line ending a loop

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index bd0121c..b9542ae 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -633,7 +633,7 @@ class CuraStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
-    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(.*)$')
+    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(\S*)')
 
     def __init__(self, **kwargs):
         StretchFilter.__init__(self, **kwargs)
-- 
2.43.0


From 0108ad8ad174072d2b3e999efa9cc43e83b03029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 36/42] fix: travels end Cura wall loops and are not stretched

---
 gcodeutils/stretch/stretch.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index b9542ae..512c163 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -674,7 +674,7 @@ class CuraStretchFilter(StretchFilter):
 
         for self.current_layer in self.gcode.all_layers:
             self.current_type_line = self.UNKNOWN
-            next_line_marker = None
+            loop_marker = next_line_marker = None
 
             for line_idx, line in enumerate(self.current_layer):
 
@@ -687,10 +687,17 @@ class CuraStretchFilter(StretchFilter):
                     extruding = False
                     line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
-                # a loop never begins on the last line of a layer
-                if next_line_marker is not None and line_idx < len(self.current_layer) - 1:
-                    self.new_perimeter(line, *next_line_marker)
-                    next_line_marker = None
+                if line.command in linear_move_gcodes and (line.x is not None or line.y is not None):
+                    if line.e is None:
+                        # travel, maybe to another loop of the same type
+                        if self.current_type_line != self.UNKNOWN:
+                            self.stop_loop(line)
+                            next_line_marker = loop_marker
+
+                    # a loop never begins on the last line of a layer
+                    elif next_line_marker is not None and line_idx < len(self.current_layer) - 1:
+                        self.new_perimeter(line, *next_line_marker)
+                        loop_marker, next_line_marker = next_line_marker, None
 
                 # checking perimeter type
                 if 'TYPE:WALL-OUTER' in line.raw:
@@ -708,6 +715,7 @@ class CuraStretchFilter(StretchFilter):
                 elif 'TYPE:' in line.raw:
                     # fill, skirt, support...
                     self.stop_loop(line)
+                    next_line_marker = None
 
                 # end loop if we reach the end of the current layer
                 if line_idx == len(self.current_layer) - 1:
-- 
2.43.0


From 2999da0a9e93f5d7e79e0d9db27359e008085182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 37/42] fix: stretch the last point of a Cura wall ending its
 layer

---
 gcodeutils/stretch/stretch.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 512c163..d8c7f5d 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -671,13 +671,17 @@ class CuraStretchFilter(StretchFilter):
 
         edge_width_found = False
         extruding = False
+        self.current_type_line = self.UNKNOWN
 
         for self.current_layer in self.gcode.all_layers:
-            self.current_type_line = self.UNKNOWN
             loop_marker = next_line_marker = None
 
             for line_idx, line in enumerate(self.current_layer):
 
+                # a loop never goes on in the next layer
+                if line_idx == 0:
+                    self.stop_loop(line)
+
                 # checking extrusion
                 if not extruding and line.command in linear_move_gcodes and line.e is not None:
                     extruding = True
@@ -694,8 +698,7 @@ class CuraStretchFilter(StretchFilter):
                             self.stop_loop(line)
                             next_line_marker = loop_marker
 
-                    # a loop never begins on the last line of a layer
-                    elif next_line_marker is not None and line_idx < len(self.current_layer) - 1:
+                    elif next_line_marker is not None:
                         self.new_perimeter(line, *next_line_marker)
                         loop_marker, next_line_marker = next_line_marker, None
 
@@ -717,10 +720,6 @@ class CuraStretchFilter(StretchFilter):
                     self.stop_loop(line)
                     next_line_marker = None
 
-                # end loop if we reach the end of the current layer
-                if line_idx == len(self.current_layer) - 1:
-                    self.stop_loop(line)
-
                 # checking for edge width
                 match = self.CURA_PROFILE_REGEXP.match(line.raw)
                 if match:
-- 
2.43.0


From ae9895e4d6334186c1059098b0a0a4eb223a4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:35 +0000
Subject: [PATCH 38/42] fix: stretching terminates on threads of coincident
 points

---
 gcodeutils/stretch/stretch.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index d8c7f5d..a9d2931 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -136,7 +136,7 @@ class LineIteratorForwardLegacy(object):
     def __init__(self, line_index, lines):
         self.first_visited_index = None
         self.line_index = line_index
-        self.first_visited_index = None
+        self.first_reset_index = None
         self.lines = lines
         self.increment = 1
 
@@ -145,6 +145,14 @@ class LineIteratorForwardLegacy(object):
     def index_setup(self):
         pass
 
+    def reset_index(self):
+        """Go on from the other end of the thread, once."""
+        self.line_index = self.reset_index_on_limit()
+        if self.line_index == self.first_reset_index:
+            self.logger.debug("infinite looping detected")
+            raise StopIteration("You've reached the end of the line.")
+        self.first_reset_index = self.line_index
+
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
         self.logger.debug("reset index forward")
@@ -172,7 +180,7 @@ class LineIteratorForwardLegacy(object):
 
             line = self.lines[self.line_index]
             if StretchFilter.EXTRUSION_OFF_MARKER in line.raw:
-                self.line_index = self.reset_index_on_limit()
+                self.reset_index()
                 continue
 
             self.line_index += self.increment
@@ -193,7 +201,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
     def index_setup(self):
         if self.line_index < 1:
-            self.line_index = self.reset_index_on_limit()
+            self.reset_index()
 
     def reset_index_on_limit(self):
         """Get index two lines before the deactivate command."""
-- 
2.43.0


From b84de634a8be1adada51749ec4892af77d10f6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 39/42] fix: stretch moves giving one coordinate after G92, and
 no relative ones

---
 gcodeutils/stretch/stretch.py | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index a9d2931..7a8a366 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -94,7 +94,8 @@ import zlib
 
 import re
 
-from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes
+from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes, \
+    GCODE_HOME_COMMAND, GCODE_SET_POSITION_COMMAND
 from .vector3 import Vector3
 
 __author__ = 'Enrique Perez (perez_enrique@yahoo.com)'
@@ -107,14 +108,14 @@ except NameError:
     xrange = range
 
 
-def get_location_from_line(old_location, line):
+def get_location_from_line(old_location, line, offset_x=0, offset_y=0):
     """Get the location from a GCode line, carrying over existing location."""
     if old_location is None:
         old_location = Vector3()
 
     # coordinates which are not given are known from the moves before this very line
     if line.is_move and line.current_x is not None:
-        old_location = Vector3(line.current_x, line.current_y, line.current_z)
+        old_location = Vector3(line.current_x - offset_x, line.current_y - offset_y, line.current_z)
 
     return Vector3(
         line.x if line.x is not None else old_location.x,
@@ -319,6 +320,7 @@ class StretchFilter:
         self.extruderActive = False
         self.isLoop = False
         self.oldLocation = None
+        self.offset_x = self.offset_y = 0
         self.gcode = None
         self.current_layer = None
         self.line_number_in_layer = 0
@@ -342,13 +344,34 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+    def get_location(self, line):
+        """Get the location of a line in the coordinates of the program."""
+        return get_location_from_line(self.oldLocation, line, self.offset_x, self.offset_y)
+
+    def track_offset(self, line):
+        """Keep the offset between recorded positions and the coordinates of the program."""
+        if line.current_x is None:
+            return
+        if line.command == GCODE_HOME_COMMAND:
+            homed = [bit[0] for bit in split(line) if bit[0] in ('x', 'y', 'z')]
+            if not homed or 'x' in homed:
+                self.offset_x = 0
+            if not homed or 'y' in homed:
+                self.offset_y = 0
+        elif line.command == GCODE_SET_POSITION_COMMAND or line.is_move and not line.relative:
+            set_all = not line.is_move and line.x is None and line.y is None and line.z is None and line.e is None
+            if set_all or line.x is not None:
+                self.offset_x = line.current_x - (line.x or 0)
+            if set_all or line.y is not None:
+                self.offset_y = line.current_y - (line.y or 0)
+
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
         """Get cross limited relative stretch for a location."""
         try:
             line = crossLineIterator.get_next()
         except StopIteration:
             return crossLimitedStretch
-        pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+        pointComplex = self.get_location(line).dropAxis()
         pointMinusLocation = locationComplex - pointComplex
         pointMinusLocationLength = abs(pointMinusLocation)
         if pointMinusLocationLength <= self.crossLimitDistanceFraction:
@@ -377,7 +400,7 @@ class StretchFilter:
                 if locationMinusPointLength > 0.0:
                     return locationMinusPoint / locationMinusPointLength
                 return complex()
-            pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+            pointComplex = self.get_location(line).dropAxis()
             locationMinusPoint = lastLocationComplex - pointComplex
             locationMinusPointLength = abs(locationMinusPoint)
             totalLength += locationMinusPointLength
@@ -394,7 +417,7 @@ class StretchFilter:
 
     def stretch_line(self, line):
         """Get stretched gcode line."""
-        location = get_location_from_line(self.oldLocation, line)
+        location = self.get_location(line)
         self.oldLocation = location
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
@@ -496,8 +519,10 @@ class StretchFilter:
             self.isLoop = False
             self.set_stretch_to_path()
 
-        # handle move command if in loop
-        if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
+        self.track_offset(line)
+
+        # handle move command if in loop, relative ones follow the absolute ones
+        if line.command in linear_move_gcodes and not line.relative and self.isLoop and (line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
         return line
-- 
2.43.0


From f200faf2922dc04e2c13f2cd00b382744eda490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 40/42] fix: pause at the layers of the translated program

---
 gcodeutils/gcode_mod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_mod.py b/gcodeutils/gcode_mod.py
index 3307c2b..892beb3 100644
--- a/gcodeutils/gcode_mod.py
+++ b/gcodeutils/gcode_mod.py
@@ -62,8 +62,10 @@ def main():
     if args.e:
         GCodeToRelativeExtrusionFilter().filter(gcode)
 
-    iterator = GCodeIterator(gcode)
     if args.p is not None:
+        # moves inserted when translating may change where layers begin
+        gcode = GCode([line.raw for layer in gcode.all_layers for line in layer])
+        iterator = GCodeIterator(gcode)
         visitor = PauseAtLayer([args.p])
         iterator.accept(visitor)
 
-- 
2.43.0


From 75a84c51a06a90833543ff9a5c6eb1933ef68c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:16 +0000
Subject: [PATCH 41/42] fix: recognise commands padded with zeros (G01 is G1)

---
 gcodeutils/gcoder.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index e01ea99..09a765b 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -169,8 +169,11 @@ def split(line):
 
     # a line holding only comments has no command
     if split_raw:
-        command = split_raw[0]
-        line.command = command[0].upper() + command[1]
+        letter, number = split_raw[0]
+        if letter in "gmt" and number.isdigit():
+            # codes can be padded with zeros: G01 is G1
+            number = number.lstrip("0") or "0"
+        line.command = letter.upper() + number
 
     line.is_move = line.command in move_gcodes
     return split_raw
-- 
2.43.0


From ec7549e946ddf32ef7e86f82ecfd7770168bf558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:16 +0000
Subject: [PATCH 42/42] fix: stretch Skeinforge programs which don't give their
 edge width with the default one, as those of other slicers, instead of
 failing

---
 gcodeutils/stretch/stretch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 7a8a366..5d41fa1 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -795,6 +795,9 @@ class SkeinforgeStretchFilter(StretchFilter):
         return False
 
     def setup_filter(self):
+        # default value, for programs which don't give their edge width
+        self.set_edge_width(0.4)
+
         for self.current_layer in self.gcode.all_layers:
             for line in self.current_layer:
                 self.parse_initialisation_line(line)
-- 
2.43.0

