From 4a4aea7b98312f1372f3ada7218bacf3560ca62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 01/21] fix: report stl files which cannot be read completely

---
 reader/reader.go | 47 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..593eb4a 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -1,7 +1,10 @@
 package reader
 
 import (
+	"bufio"
+	"bytes"
 	"errors"
+	"io/ioutil"
 	"os"
 
 	"github.com/aligator/goslice/data"
@@ -19,7 +22,8 @@ func (f face) Points() [3]data.MicroVec3 {
 }
 
 type Model struct {
-	faces []data.Face
+	faces   []data.Face
+	isASCII bool
 }
 
 func (m *Model) SetName(name string) {
@@ -33,8 +37,7 @@ func (m *Model) SetBinaryHeader(header []byte) {
 }
 
 func (m *Model) SetASCII(isASCII bool) {
-	// not used yet
-	return
+	m.isASCII = isASCII
 }
 
 func (m *Model) SetTriangleCount(n uint32) {
@@ -116,10 +119,46 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+
+	// Read the whole file at once, so that no part of it can get lost by a short read.
+	content, err := ioutil.ReadFile(filename)
+	if err != nil {
+		return model, err
+	}
+
+	if err := stl.CopyAll(bytes.NewReader(content), model); err != nil {
+		return model, err
+	}
+
+	if model.isASCII {
+		// The parser silently skips everything it does not expect between two facets and behind the first solid.
+		vertices, err := countVertices(content)
+		if err != nil {
+			return model, err
+		}
+		if vertices != 3*len(model.faces) {
+			return model, errors.New("the stl file contains triangles which could not be read")
+		}
+	}
+
 	return model, nil
 }
 
+// countVertices counts all vertices in the given ASCII stl file, ignoring the header line.
+func countVertices(content []byte) (int, error) {
+	words := bufio.NewScanner(bytes.NewReader(content[bytes.IndexByte(content, '\n')+1:]))
+	words.Split(bufio.ScanWords)
+
+	count := 0
+	for words.Scan() {
+		if words.Text() == "vertex" {
+			count++
+		}
+	}
+
+	return count, words.Err()
+}
+
 // stlTriangleToFace converts a triangle from the stl package
 // into a face.
 func stlTriangleToFace(t stl.Triangle) face {
-- 
2.43.0


From 4d2800462378260a3adcfe4f5c8fb46e6950eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 02/21] fix: refuse models without any face instead of
 panicking

---
 optimizer/model.go     | 8 ++++++++
 optimizer/optimizer.go | 6 ++++++
 reader/reader.go       | 8 ++++++++
 3 files changed, 22 insertions(+)

diff --git a/optimizer/model.go b/optimizer/model.go
index 46bf676..3f793cf 100644
--- a/optimizer/model.go
+++ b/optimizer/model.go
@@ -30,6 +30,10 @@ func (o optimizedModel) Size() data.MicroVec3 {
 }
 
 func (o optimizedModel) Min() data.MicroVec3 {
+	if len(o.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := o.faces[0].Points()[0].Copy()
 
 	for _, face := range o.faces {
@@ -52,6 +56,10 @@ func (o optimizedModel) Min() data.MicroVec3 {
 }
 
 func (o optimizedModel) Max() data.MicroVec3 {
+	if len(o.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := o.faces[0].Points()[0].Copy()
 
 	for _, face := range o.faces {
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..8a4e93f 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,8 @@
 package optimizer
 
 import (
+	"errors"
+
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -122,6 +124,10 @@ FacesLoop:
 		om.faces = append(om.faces, optimizedFace)
 	}
 
+	if len(om.faces) == 0 {
+		return nil, errors.New("the model contains no faces")
+	}
+
 	// count open faces
 	openFaces := 0
 	for i, face := range om.faces {
diff --git a/reader/reader.go b/reader/reader.go
index 593eb4a..b58eadf 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -64,6 +64,10 @@ func (m Model) Face(index int) data.Face {
 }
 
 func (m Model) Min() data.MicroVec3 {
+	if len(m.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := m.faces[0].Points()[0].Copy()
 
 	for _, face := range m.faces {
@@ -86,6 +90,10 @@ func (m Model) Min() data.MicroVec3 {
 }
 
 func (m Model) Max() data.MicroVec3 {
+	if len(m.faces) == 0 {
+		return data.NewMicroVec3(0, 0, 0)
+	}
+
 	ret := m.faces[0].Points()[0].Copy()
 
 	for _, face := range m.faces {
-- 
2.43.0


From b80e9c2d96b1fc6466d1c71bdf1db20474300464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 03/21] fix: slice models with vertical gaps

---
 slicer/slicer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..69da03a 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -111,6 +111,11 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	c := clip.NewClipper()
 
 	for i, layer := range layers {
+		if layer == nil {
+			// there may be gaps between the bodies of the model
+			layer = newLayer(i, s.options)
+		}
+
 		layer.makePolygons(m, s.options.Slicing.JoinPolygonSnapDistance, s.options.Slicing.FinishPolygonSnapDistance)
 		lp, ok := c.GenerateLayerParts(layer)
 
-- 
2.43.0


From 91e3d207d15230b82d1954e8eaed9c7c602a28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:40 +0000
Subject: [PATCH 04/21] fix: slice thin models and models which are not placed
 at height 0 without panicking

---
 slicer/slicer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index 69da03a..2086839 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -15,6 +15,7 @@
 package slicer
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -31,7 +32,12 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// the bottom of the model is placed at the z position of the center
+	topZ := m.Size().Z() + s.options.Printer.Center.Z()
+	layerCount := (topZ-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	if layerCount < 1 {
+		return nil, errors.New("the model is too thin to be sliced into layers")
+	}
 
 	layers := make([]*layer, layerCount)
 
-- 
2.43.0


From 65fb967320d1cf16cf35d11a2fc92d1fdeafa42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 05/21] fix: do not panic on insets of degenerated outlines

---
 clip/clip.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..a4cd049 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -225,6 +225,11 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 func polyTreeToLayerParts(tree *clipper.PolyTree) []data.LayerPart {
 	var layerParts []data.LayerPart
 
+	// clipper provides no tree at all if there was nothing to work on (e.g. only degenerated paths)
+	if tree == nil {
+		return nil
+	}
+
 	var polysForNextRound []*clipper.PolyNode
 
 	for _, c := range tree.Childs() {
-- 
2.43.0


From ca8e25955c86f42a611e0df10e3a2a49c2a1f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 06/21] fix: polygon operations on nothing do not fail

---
 clip/clip.go | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index a4cd049..bde55e5 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -207,12 +207,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 		polyList = append(polyList, clipperPath(layerPolygon.Simplify(-1, -1)))
 	}
 
-	if len(polyList) == 0 {
+	cl := clipper.NewClipper(clipper.IoNone)
+	if len(polyList) == 0 || !cl.AddPaths(polyList, clipper.PtSubject, true) {
 		return data.NewPartitionedLayer([]data.LayerPart{}), true
 	}
-
-	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
@@ -310,15 +308,30 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		return nil, true
 	}
 
+	// clipper fails if there is no valid path at all, but then the result is just empty
+	isEmpty := true
+
 	cl := clipper.NewClipper(clipper.IoNone)
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
-		cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true)
+		if cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) {
+			isEmpty = false
+		}
+		if cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true) {
+			isEmpty = false
+		}
 	}
 
 	for _, intersect := range toClip {
-		cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true)
-		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
+		if cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true) {
+			isEmpty = false
+		}
+		if cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true) {
+			isEmpty = false
+		}
+	}
+
+	if isEmpty {
+		return nil, true
 	}
 
 	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
@@ -369,8 +382,15 @@ func (c clipperClipper) Hull(parts []data.LayerPart) (hull data.Path, ok bool) {
 func (c clipperClipper) TopLevelPolygons(parts []data.LayerPart) (topLevel data.Paths, ok bool) {
 	cl := clipper.NewClipper(clipper.IoNone)
 
+	// clipper fails if there is no valid path at all, but then the result is just empty
+	isEmpty := true
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
+		if cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) {
+			isEmpty = false
+		}
+	}
+	if isEmpty {
+		return nil, true
 	}
 
 	// this is just a dummy-call to Execute2 as I found no other way to get a tree from clipper...
-- 
2.43.0


From 11817256f623eabfcca2bdeba61272cbed7edbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 07/21] fix: report failing polygon operations of brim and
 support

---
 modifier/brim.go    | 6 +++++-
 modifier/support.go | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..eadc6b2 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -1,6 +1,7 @@
 package modifier
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -101,7 +102,10 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	cl := clip.NewClipper()
 
 	// Get the top level polys e.g. the polygons which are not inside another.
-	topLevelPerimeters, _ := cl.TopLevelPolygons(allOuterPerimeters)
+	topLevelPerimeters, ok := cl.TopLevelPolygons(allOuterPerimeters)
+	if !ok {
+		return errors.New("could not determine the top level perimeters to create the brim")
+	}
 	allOuterPerimeters = nil
 	for _, p := range topLevelPerimeters {
 		allOuterPerimeters = append(allOuterPerimeters, data.NewBasicLayerPart(p, nil))
diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..73bec73 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -213,7 +213,14 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 			}
 			if brimArea != nil {
 				interfaceParts, ok = c.Difference(interfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while subtracting the brim from the interface parts")
+				}
+
 				actualWithoutInterfaceParts, ok = c.Difference(actualWithoutInterfaceParts, brimArea)
+				if !ok {
+					return errors.New("error while subtracting the brim from the support")
+				}
 			}
 		}
 
-- 
2.43.0


From 1809f5fbb755bb887cc5dea9ad88527f6efab322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 08/21] fix: return an error instead of panicking if the infill
 cannot be sorted

---
 clip/linear.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/clip/linear.go b/clip/linear.go
index 8c9c18a..1ea8e8c 100644
--- a/clip/linear.go
+++ b/clip/linear.go
@@ -78,7 +78,10 @@ func (p linear) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
 		return nil, err
 	}
 
-	result := p.sortInfill(microPaths(resultInfill, false), p.zigZag, data.NewBasicLayerPart(outline, holes))
+	result, err := p.sortInfill(microPaths(resultInfill, false), p.zigZag, data.NewBasicLayerPart(outline, holes))
+	if err != nil {
+		return nil, err
+	}
 
 	result.Rotate(-rotation)
 
@@ -86,9 +89,9 @@ func (p linear) Fill(layerNr int, part data.LayerPart) (data.Paths, error) {
 }
 
 // sortInfill optimizes the order of the infill lines.
-func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart) data.Paths {
+func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart) (data.Paths, error) {
 	if len(unsorted) == 0 {
-		return unsorted
+		return unsorted, nil
 	}
 
 	cl := NewClipper()
@@ -145,8 +148,7 @@ func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart
 					isCrossing, ok := cl.IsCrossingPerimeter([]data.LayerPart{part}, connectionLine)
 
 					if !ok {
-						// TODO: return error
-						panic("could not calculate the difference between the current layer and the non-extrusion-move")
+						return nil, errors.New("could not calculate the difference between the current layer and the non-extrusion-move")
 					}
 
 					if !isCrossing {
@@ -172,7 +174,7 @@ func (p linear) sortInfill(unsorted data.Paths, zigZag bool, part data.LayerPart
 		}
 	}
 
-	return sorted
+	return sorted, nil
 }
 
 // getInfill fills a polygon (with holes)
-- 
2.43.0


From 8512ac270cad3055d23370bf2f09bace158a10c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:00 +0000
Subject: [PATCH 09/21] fix: report errors on closing the output file

---
 writer/writer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/writer/writer.go b/writer/writer.go
index 25c5d3d..2191ec4 100644
--- a/writer/writer.go
+++ b/writer/writer.go
@@ -18,8 +18,10 @@ func (w writer) Write(gcode string, filename string) error {
 		return err
 	}
 
-	defer buf.Close()
-
 	_, err = buf.WriteString(gcode)
+	if closeErr := buf.Close(); err == nil {
+		// the data may get lost even on close
+		err = closeErr
+	}
 	return err
 }
-- 
2.43.0


From 2e88c2e0c2ca361c1ca590e21844a44e50f8e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:09 +0000
Subject: [PATCH 10/21] fix: do not format commands and comments which have no
 arguments

---
 gcode/builder.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..5cebb56 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -79,14 +79,18 @@ func (g *Builder) SetRetractionZHop(zHopOnRetract data.Millimeter) {
 }
 
 func (g *Builder) AddCommand(command string, args ...interface{}) {
+	if len(args) > 0 {
+		command = fmt.Sprintf(command, args...)
+	}
 	command = command + "\n"
-	command = fmt.Sprintf(command, args...)
 	g.buf.WriteString(command)
 }
 
 func (g *Builder) AddComment(comment string, args ...interface{}) {
+	if len(args) > 0 {
+		comment = fmt.Sprintf(comment, args...)
+	}
 	comment = ";" + comment + "\n"
-	comment = fmt.Sprintf(comment, args...)
 	g.buf.WriteString(comment)
 }
 
-- 
2.43.0


From 0f9f522e20b622f07a0588c62fb3ba317ab85eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 11/21] fix: send no bed temperature without a heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..90e643c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From 4fe56e8eb61910b24c6c5ef9390537207d7eb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:11 +0000
Subject: [PATCH 12/21] fix: use the outer perimeter speed for outer perimeters
 only

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..fc29f17 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -55,5 +55,8 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		}
 	}
 
+	// everything which is rendered after the perimeters uses the normal speed again
+	b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	return nil
 }
-- 
2.43.0


From f4ef8a2869e569d57e3589100c3de8b5a160346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 13/21] fix: do not modify the given path when smoothing it

---
 data/2d.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..fa2a530 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -43,7 +43,11 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+
+		// create a new path as left may still share the memory with the given points
+		result := make(Path, 0, len(left)+len(right)-1)
+		result = append(result, left[:len(left)-1]...)
+		return append(result, right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From c636f58165ba613e3a6160bdfed3e3283817dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:30 +0000
Subject: [PATCH 14/21] fix: find only real instructions in custom gcode

---
 data/option.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index bbce068..9135c1f 100644
--- a/data/option.go
+++ b/data/option.go
@@ -153,9 +153,13 @@ func (gch GCodeHunk) GetInstructionCode() []string {
 func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	contained := false
 	for _, instruction := range gch.GCodeLines {
+		// comments do not count
+		instruction = strings.Split(instruction, ";")[0]
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			// arguments may follow without a space, but e.g. M1045 is not M104
+			args := strings.TrimPrefix(code, targetCode)
+			if strings.HasPrefix(code, targetCode) && (args == "" || args[0] < '0' || args[0] > '9') {
 				contained = true
 				break
 			}
-- 
2.43.0


From c47da9a0f821de745532630953439e5333caa4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:40 +0000
Subject: [PATCH 15/21] fix: a layer without perimeters does not end the infill
 of all layers above

---
 modifier/infill.go          | 8 ++++++--
 modifier/internal_infill.go | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..5f5f01f 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,18 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil || perimeters == nil {
+			// only this layer has nothing to fill
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..1900548 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// only this layer has nothing to fill
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From a25d63f3e5a3b44249693bbd13902d297bd7daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:50 +0000
Subject: [PATCH 16/21] fix: report an inset count of 0 instead of panicking

---
 modifier/perimeter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..3c245a7 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -76,6 +76,10 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 				overlapPerimeter = append(overlapPerimeter, nil)
 			}
 
+			if len(part) == 0 {
+				return errors.New("at least one inset is needed")
+			}
+
 			// Use only the most inner perimeter.
 			for _, insetPart := range part[len(part)-1] {
 
-- 
2.43.0


From ce7a8d4b1bee152f10dd42f317b2f2b903bb21b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:59 +0000
Subject: [PATCH 17/21] fix: allow a meld distance of 0

---
 optimizer/optimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index 8a4e93f..fd06e62 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -62,6 +62,10 @@ FacesLoop:
 			// create hash for the pos
 			// points which are within the meldDistance fall into the same category of the indices map
 			meldDistanceHash := pointHash(o.options.Slicing.MeldDistance)
+			if meldDistanceHash == 0 {
+				// meld only equal points
+				meldDistanceHash = 1
+			}
 			hash := ((pointHash(currentPoint.X()) + meldDistanceHash/2) / meldDistanceHash) ^
 				(((pointHash(currentPoint.Y()) + meldDistanceHash/2) / meldDistanceHash) << 10) ^
 				(((pointHash(currentPoint.Z()) + meldDistanceHash/2) / meldDistanceHash) << 20)
-- 
2.43.0


From 4cb761bab1da7bbfbfee5ac36d970c309f5c4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 18/21] fix: do not panic on a support threshold angle of 90
 degrees

---
 modifier/support.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modifier/support.go b/modifier/support.go
index 73bec73..3f98e89 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -84,6 +84,11 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 			continue
 		}
 
+		if m.options.Print.Support.ThresholdAngle >= 90 {
+			// even horizontal overhangs need no support (and the distance would be infinite)
+			return nil
+		}
+
 		// calculate distance (d):
 		distance := float64(m.options.Print.LayerThickness) * math.Tan(data.ToRadians(float64(m.options.Print.Support.ThresholdAngle)))
 
-- 
2.43.0


From bd03e48f7c22371ecaf0e856cb75582891ba9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 19/21] fix: accumulate the extrusion with full precision

---
 gcode/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 5cebb56..415dec0 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -15,7 +15,7 @@ import (
 type Builder struct {
 	buf *bytes.Buffer
 
-	extrusionAmount                                             data.Millimeter
+	extrusionAmount                                             float64 // data.Millimeter is not precise enough for long prints
 	extrusionPerMM                                              data.Millimeter
 	currentPosition                                             data.MicroVec3
 	notFirstMoveX                                               bool
@@ -125,7 +125,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.currentSpeed = speed
 	}
 
-	g.extrusionAmount += extrusion
+	g.extrusionAmount += float64(extrusion)
 	if extrusion != 0 {
 		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
 	}
-- 
2.43.0


From 701109e3c36bfae38ce0cab6d96ebe6251baff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:17 +0000
Subject: [PATCH 20/21] fix: a move without any length does not fail the
 perimeter check

---
 clip/clip.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index bde55e5..fd8e370 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -351,7 +351,10 @@ func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Pa
 		cl.AddPath(clipperPath(part.Outline()), clipper.PtClip, true)
 	}
 
-	cl.AddPath(clipperPath(line), clipper.PtSubject, false)
+	if !cl.AddPath(clipperPath(line), clipper.PtSubject, false) {
+		// a line without any length cannot cross anything
+		return false, true
+	}
 
 	// calculate the difference of the parts and the line, then look if the (inverted) result contains any left path which would be a line not inside of the parts.
 	// If any part is left, the line crossed a perimeter.
-- 
2.43.0


From 2954eca920ed0ad13079a0dce3df8202a58524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:49 +0000
Subject: [PATCH 21/21] fix: simplifying paths overflowed for models bigger
 than about 55 mm

---
 data/2d.go    | 5 +++--
 data/layer.go | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index fa2a530..51cd6f7 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -24,7 +24,8 @@ func PerpendicularDistance2(a, b, point MicroPoint) Micrometer {
 	}
 
 	dotProduct := DotProduct(vecAB, vecAP)
-	axSize2 := dotProduct * dotProduct / vecAB.Size2()
+	// the square of the product does not fit into an integer for long lines
+	axSize2 := Micrometer(float64(dotProduct) * float64(dotProduct) / float64(vecAB.Size2()))
 	return Max(0, vecAP.Size2()-axSize2)
 }
 
@@ -60,7 +61,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if float64(d) > float64(maxDist)*float64(maxDist) {
 			maxDist = d
 			idx = i
 		}
diff --git a/data/layer.go b/data/layer.go
index 9d6f8e4..4f07d25 100644
--- a/data/layer.go
+++ b/data/layer.go
@@ -118,7 +118,8 @@ func (p Path) Simplify(smallestLineSegmentSquared, allowedErrorDistanceSquared M
 		// h = L / b           [divide by b]
 		// h^2 = (L / b)^2     [square it]
 		// h^2 = L^2 / b^2     [factor the divisor]
-		height2 := areaRemovedSoFar * areaRemovedSoFar / baseLength2
+		// The square of the area does not fit into an integer for big polygons.
+		height2 := Micrometer(float64(areaRemovedSoFar) * float64(areaRemovedSoFar) / float64(baseLength2))
 		if (height2 <= 25 && //Almost exactly collinear (barring rounding errors).
 			PerpendicularDistance2(current, previous, next) <= 25) ||
 			(length2 < smallestLineSegmentSquared &&
-- 
2.43.0

