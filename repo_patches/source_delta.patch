From 8f2ff849f9e5cc81ff9c797e2f34e4236aa41f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:01 +0000
Subject: [PATCH 01/34] fix: count the schemas of each major version correctly
 in lineages of four or more majors

---
 lineage.cue | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lineage.cue b/lineage.cue
index 418e442..28b9423 100644
--- a/lineage.cue
+++ b/lineage.cue
@@ -123,14 +123,14 @@ import (
 	if len(SS) > 1 {
 		_pos: [0, for i, sch in list.Drop(SS, 1) if SS[i].version[0] < sch.version[0] {i + 1}]
 		_counts: [ for i, idx in list.Slice(_pos, 0, len(_pos)-1) {
-			_pos[i+1] - list.Sum(list.Slice(_pos, 0, i+1))
+			_pos[i+1] - _pos[i]
 		}, len(SS) - _pos[len(_pos)-1]]
 
 		// The following approach to the above:
 		//
 		//		let pos = [0, for i, sch in SS[1:] if SS[i].version[0] < sch.version[0] { i+1 }]
 		//		_counts: [for i, idx in pos[:len(pos)-1] {
-		//			pos[i+1]-list.Sum(pos[:i+1])
+		//			pos[i+1]-pos[i]
 		//		}, len(SS)-pos[len(pos)-1]]
 		//
 		// causes the following cue internals panic:
-- 
2.43.0


From 08e56cf83bad6d64efecd0bfde852dca1458416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:15 +0000
Subject: [PATCH 02/34] fix: LatestInMajor returns the last schema of its own
 major version

---
 schema.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index b685310..92e6ff7 100644
--- a/schema.go
+++ b/schema.go
@@ -137,7 +137,9 @@ func (sch *schemaDef) predecessor() *schemaDef {
 // within this Schema's major version. If the receiver Schema is the latest, it
 // will return itself.
 func (sch *schemaDef) LatestInMajor() Schema {
-	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})]
+	// The search finds the position of the first schema in any later major version,
+	// so the schema immediately before it is the last one in this major version.
+	return sch.lin.allsch[searchSynv(sch.lin.allv, SyntacticVersion{sch.v[0] + 1, 0})-1]
 }
 
 // Underlying returns the cue.Value that represents the underlying CUE #SchemaDef.
-- 
2.43.0


From 71b7ef3b04f3240c47fe6f2794a08c5f8b6f49d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:35 +0000
Subject: [PATCH 03/34] fix: reject lineages whose schema versions are not
 contiguous from 0.0

---
 bind.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/bind.go b/bind.go
index 572cfc3..1eaa8ad 100644
--- a/bind.go
+++ b/bind.go
@@ -111,6 +111,24 @@ func (ml *maybeLineage) checkGoValidity(cfg *bindConfig) error {
 		previous = sch
 	}
 
+	return ml.checkSchemasContiguous()
+}
+
+// checkSchemasContiguous verifies that schema versions begin at 0.0 and that each
+// following version is either the next minor or the next major version.
+func (ml *maybeLineage) checkSchemasContiguous() error {
+	if first := ml.schlist[0]; first.v != synv() {
+		return errors.Mark(mkerror(first.ref.LookupPath(pathSch), "first schema in a lineage must have version %s, not %s", synv(), first.v), terrors.ErrInvalidSchemasOrder)
+	}
+
+	for i, curr := range ml.schlist[1:] {
+		prev := ml.schlist[i].v
+		nextMinor, nextMajor := synv(prev[0], prev[1]+1), synv(prev[0]+1, 0)
+		if curr.v != nextMinor && curr.v != nextMajor {
+			return errors.Mark(mkerror(curr.ref.LookupPath(pathSch), "schema following version %s must have version %s or %s, not %s", prev, nextMinor, nextMajor, curr.v), terrors.ErrInvalidSchemasOrder)
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From d0c3a23de6a07498602f009e3b6f232a19dea101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:08 +0000
Subject: [PATCH 04/34] fix: hydrate and dehydrate instances against the schema
 itself, not its #SchemaDef wrapper

---
 instance.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index ec03f9a..b75e323 100644
--- a/instance.go
+++ b/instance.go
@@ -60,7 +60,7 @@ func (i *Instance) Hydrate() *Instance {
 	i.check()
 
 	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying(), i.raw)
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
@@ -82,7 +82,7 @@ func (i *Instance) Hydrate() *Instance {
 func (i *Instance) Dehydrate() *Instance {
 	i.check()
 
-	ni, _, err := doDehydrate(i.sch.Underlying(), i.raw)
+	ni, _, err := doDehydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From ab79c1fd5ba33981379d0993d02840427246b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:09 +0000
Subject: [PATCH 05/34] fix: return the lacunas emitted by lenses from
 Translate instead of failing on them

---
 translate.cue | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/translate.cue b/translate.cue
index c92e5e3..4f4e219 100644
--- a/translate.cue
+++ b/translate.cue
@@ -40,6 +40,18 @@ import "list"
 			to:     TV
 			result: *steps[len(steps)-1].result | I
 		}
+
+		// all lacunas emitted during the translation, grouped by the version of
+		// the schema that was the target of the lens emitting them
+		lacunas: [ for step in steps for lacs in [[ for lac in step.lacunas {
+			sourceFields: lac.sourceFields
+			targetFields: lac.targetFields
+			message:      lac.message
+			type:         lac.type.id
+		}]] if len(lacs) > 0 {
+			v:       step.to
+			lacunas: lacs
+		}]
 	}
 	out: {
 		steps: [
@@ -72,7 +84,7 @@ import "list"
 					to:   _lens.to
 					// TODO initial input isn't necessarily unified with schema - does that make translated output meaningfully different?
 					result: {_lens.result, schdef._#schema}
-					lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+					lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 				}]
 
 				// Final value excludes first element (initial input) from accum
@@ -115,7 +127,7 @@ import "list"
 						to:   schdef.version
 						//						result: {_lens.result, schdef._#schema, {lidx: lensidx}}
 						result: {_lens.result, schdef._#schema}
-						lacunas: [ for lac in _lens.lacunas if lac.condition {lac.lacuna}]
+						lacunas: [ for lac in _lens.lacunas if lac.condition {lac}]
 						// Crossing a major version. The forward lens explicitly defined in the schema
 						// provides the mapping algorithm.
 					}
-- 
2.43.0


From 0c572da83f71ff1b216481d097ece51dd4965c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:00 +0000
Subject: [PATCH 06/34] fix: do not overwrite the instances handed to Go lenses
 as translation proceeds

---
 instance.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index b75e323..e0e188f 100644
--- a/instance.go
+++ b/instance.go
@@ -297,7 +297,7 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 				panic(fmt.Sprintf("unreachable - error on minor version upgrade: %s", err))
 			}
 		}
-		*ti = *rti
+		ti = rti
 		sch = nsch
 	}
 
-- 
2.43.0


From a3f89f6869d719ea53d52a8cb91db009a3ec2027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 07/34] fix: mark every error returned from Translate as
 ErrInvalidLens, as documented

---
 instance.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/instance.go b/instance.go
index e0e188f..df5e788 100644
--- a/instance.go
+++ b/instance.go
@@ -229,7 +229,7 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	}
 
 	if out.Err() != nil {
-		return nil, nil, errors.Mark(out.Err(), terrors.ErrInvalidLens)
+		return nil, nil, markLensErr(out.Err())
 	}
 
 	lac := make(multiTranslationLacunas, 0)
@@ -242,13 +242,13 @@ func (i *Instance) Translate(to SyntacticVersion) (*Instance, TranslationLacunas
 	// Check that the result is concrete by trying to marshal/export it as JSON
 	_, err = json.Marshal(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete)
+		return nil, nil, markLensErr(errors.Mark(fmt.Errorf("lens produced a non-concrete result: %s", cerrors.Details(err, nil)), terrors.ErrLensIncomplete))
 	}
 
 	// Ensure the result is a valid instance of the target schema
 	inst, err := newsch.Validate(raw)
 	if err != nil {
-		return nil, nil, errors.Mark(err, terrors.ErrLensResultIsInvalidData)
+		return nil, nil, markLensErr(errors.Mark(err, terrors.ErrLensResultIsInvalidData))
 	}
 	return inst, lac, err
 }
@@ -279,16 +279,16 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 			mlid := lid(sch.Version(), nsch.Version())
 			rti, err = lensmap[mlid].Mapper(ti, nsch)
 			if err != nil {
-				return nil, nil, fmt.Errorf("error executing %s migration: %w", mlid, err)
+				return nil, nil, markLensErr(fmt.Errorf("error executing %s migration: %w", mlid, err))
 			}
 			// Ensure that
 			//  - the returned instance exists
 			//  - the caller returned an instance of the expected schema version
 			if rti == nil {
-				return nil, nil, fmt.Errorf("lens returned a nil instance")
+				return nil, nil, markLensErr(fmt.Errorf("lens returned a nil instance"))
 			}
 			if rti.Schema().Version() != nsch.Version() {
-				return nil, nil, fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version())
+				return nil, nil, markLensErr(fmt.Errorf("lens returned an instance of the wrong schema version: expected %v, got %v", nsch.Version(), rti.Schema().Version()))
 			}
 		} else {
 			// going up a minor version - neither errors nor lacunas are possible
@@ -304,6 +304,12 @@ func (i *Instance) translateGo(to SyntacticVersion) (*Instance, TranslationLacun
 	return ti, nil, nil
 }
 
+// markLensErr marks an error returned from translation as being a child of
+// [terrors.ErrInvalidLens].
+func markLensErr(err error) error {
+	return errors.Mark(err, terrors.ErrInvalidLens)
+}
+
 type multiTranslationLacunas []struct {
 	V   SyntacticVersion `json:"v"`
 	Lac []Lacuna         `json:"lacunas"`
-- 
2.43.0


From b238bd561341791e16e695d2197e3fb33513df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:17 +0000
Subject: [PATCH 08/34] fix: allow binding typed schemas to non-pointer struct
 types, as documented

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 92e6ff7..840e22d 100644
--- a/schema.go
+++ b/schema.go
@@ -181,7 +181,7 @@ func BindType[T Assignee](sch Schema, t T) (TypedSchema[T], error) {
 	}
 
 	// Verify that there are no problematic errors emitted from decoding.
-	if err := sch.Underlying().LookupPath(pathSchDef).Decode(t); err != nil {
+	if err := sch.Underlying().LookupPath(pathSchDef).Decode(new(T)); err != nil {
 		// Because assignability has already been established, the only errors here
 		// _should_ be those arising from schema fields without concrete defaults. But
 		// to avoid swallowing other error types, try to filter out those from the list
-- 
2.43.0


From 86f380d5afc91897f43d529bff1ef66d2829332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:15 +0000
Subject: [PATCH 09/34] fix: report excess fields and other unclassified
 problems in validation errors instead of dropping them

---
 validate.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/validate.go b/validate.go
index c4bfdf9..2e4f512 100644
--- a/validate.go
+++ b/validate.go
@@ -40,7 +40,10 @@ func (e *onesidederr) Error() string {
 			fmt.Fprintf(&buf, "\n\t\t%s", pos.String())
 		}
 
-		fmt.Fprintf(&buf, "\n\tbut field exists in data with value `%v`", e.val)
+		fmt.Fprintf(&buf, "\n\tbut field exists in data")
+		if e.val != "" {
+			fmt.Fprintf(&buf, " with value `%v`", e.val)
+		}
 		for _, pos := range e.datapos {
 			fmt.Fprintf(&buf, "\n\t\t%s", pos.String())
 		}
@@ -124,6 +127,17 @@ func mungeValidateErr(err error, sch Schema) error {
 
 		msg, vals := ee.Msg()
 		switch len(vals) {
+		case 0:
+			if !strings.Contains(msg, "not allowed") {
+				break
+			}
+			errs = append(errs, &onesidederr{
+				schpos:  schpos,
+				datapos: datapos,
+				coords:  x,
+				code:    terrors.ExcessField,
+			})
+			continue
 		case 1:
 			val, ok := vals[0].(string)
 			if !ok {
@@ -210,6 +224,14 @@ func mungeValidateErr(err error, sch Schema) error {
 			errs = append(errs, err)
 			continue
 		}
+
+		// The branches of a failed disjunction are reported one by one, following this summary.
+		if strings.Contains(msg, "errors in empty disjunction") {
+			continue
+		}
+
+		// Not a recognized form of error. Report it as CUE phrased it.
+		errs = append(errs, fmt.Errorf("%s: validation failed, data is not an instance:\n\t%s", x, fmt.Sprintf(msg, vals...)))
 	}
 	return errs
 }
-- 
2.43.0


From 1ba7a955dd4d8a22a920cd07b231dbf98a763d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:21 +0000
Subject: [PATCH 10/34] fix: do not swap schema and data in validation errors
 about types without a source position

---
 validate.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/validate.go b/validate.go
index 2e4f512..3f1853c 100644
--- a/validate.go
+++ b/validate.go
@@ -165,7 +165,7 @@ func mungeValidateErr(err error, sch Schema) error {
 			var dvok, svok bool
 
 			// data first
-			if len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			if len(inputPositions) > 0 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 			} else { // schema first
@@ -191,8 +191,8 @@ func mungeValidateErr(err error, sch Schema) error {
 			var schval, dataval string
 			var schkind, datakind cue.Kind
 
-			// data first
-			if len(inputPositions) > 1 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
+			// data first. If no position is in the schema (e.g. builtin types), CUE puts the schema first.
+			if len(schpos) > 0 && !strings.HasSuffix(inputPositions[0].Filename(), ".cue") {
 				schval, svok = vals[1].(string)
 				dataval, dvok = vals[0].(string)
 				schkind, skok = vals[3].(cue.Kind)
-- 
2.43.0


From dcdbfa2e9a9a635d19826266754dd0af93f42510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 11/34] fix: openapi: descend along Config.Subpath instead of
 looking up every part of it in the root

---
 encoding/openapi/oapi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 4855e10..8d631c8 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -184,11 +184,11 @@ func genSchema(gen *oapiGen, val cue.Value) ([]ast.Decl, error) {
 			if !val.Allows(sel) {
 				return nil, errors.Newf(cuetil.FirstNonThemaPos(val), "subpath %q not present in schema", cue.MakePath(gen.cfg.Subpath.Selectors()[:i+1]...))
 			}
+			val = val.LookupPath(cue.MakePath(sel))
 		}
 		if err := pathAllowed(gen.join, gen.cfg.Subpath); err != nil {
 			return nil, err
 		}
-		val = val.LookupPath(gen.cfg.Subpath)
 	}
 
 	v := gen.sch.Underlying().Context().CompileString(fmt.Sprintf("#%s: _", name))
@@ -250,6 +250,10 @@ func pathAllowed(v cue.Value, path cue.Path) error {
 		if !v.Allows(sel) {
 			return errors.Newf(v.Pos(), "subpath %q not present in schema", cue.MakePath(path.Selectors()[:i+1]...))
 		}
+		if v = v.LookupPath(cue.MakePath(sel)); !v.Exists() {
+			// nothing said about this path, so nothing about what is below it
+			break
+		}
 	}
 
 	return nil
-- 
2.43.0


From 2b078c47be9268a92af21e7148fbce17fc7110ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:42 +0000
Subject: [PATCH 12/34] fix: jsonschema: keep null allowed in enums, references
 and unions of types

---
 encoding/jsonschema/jschema.go | 72 +++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 2 deletions(-)

diff --git a/encoding/jsonschema/jschema.go b/encoding/jsonschema/jschema.go
index b519526..9888ada 100644
--- a/encoding/jsonschema/jschema.go
+++ b/encoding/jsonschema/jschema.go
@@ -137,6 +137,10 @@ func isLogicOp(n ast.Node) bool {
 	return false
 }
 
+// typeUnion stands for the type of nullable schema nodes that have no type of
+// their own, because they are the union of several types.
+const typeUnion = ""
+
 var errNotASchema = errors.New("not a schema node")
 
 func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
@@ -151,9 +155,24 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 
 	typ, err := getSchemaType(n)
 	if err != nil {
-		return nil, err
+		if !checkNull(n) {
+			return nil, err
+		}
+		typ = typeUnion
 	}
 	switch typ {
+	case typeUnion:
+		inner.scanf = func(p *schNode, n *ast.StructLit) error {
+			p.ensureNull = true
+
+			// Recurse down the alternatives
+			if of := getFieldWithLabel(n, "oneOf"); of != nil {
+				return scan(p, of)
+			}
+
+			return nil
+		}
+
 	case "object":
 		inner.scanf = func(p *schNode, n *ast.StructLit) error {
 			p.ensureNull = checkNull(n)
@@ -168,7 +187,14 @@ func newSchemaNode(parent schemaNode, in ast.Node) (schemaNode, error) {
 
 			// And additionalProperties
 			if apf := getFieldWithLabel(n, "additionalProperties"); apf != nil {
-				return scan(p, apf)
+				if err = scan(p, apf); err != nil {
+					return err
+				}
+			}
+
+			// And the alternatives
+			if of := getFieldWithLabel(n, "oneOf"); of != nil {
+				return scan(p, of)
 			}
 
 			return nil
@@ -216,6 +242,40 @@ func checkNull(n *ast.StructLit) bool {
 	return false
 }
 
+func containsNull(list *ast.ListLit) bool {
+	for _, el := range list.Elts {
+		if x, is := el.(*ast.BasicLit); is && x.Kind == token.NULL {
+			return true
+		}
+	}
+	return false
+}
+
+// nullAlternative makes null an alternative to the logical operators among the
+// provided elements of a schema, if there are any. Null does not satisfy them
+// just because it is among the schema's types.
+func nullAlternative(elts []ast.Decl) []ast.Decl {
+	var rest, ops []ast.Decl
+	for _, el := range elts {
+		if isLogicOp(el) {
+			ops = append(ops, el)
+		} else {
+			rest = append(rest, el)
+		}
+	}
+	if len(ops) == 0 {
+		return elts
+	}
+
+	return append(rest, &ast.Field{
+		Label: ast.NewString("anyOf"),
+		Value: ast.NewList(
+			&ast.StructLit{Elts: ops},
+			ast.NewStruct("type", ast.NewString("null")),
+		),
+	})
+}
+
 func (s *schNode) process() {
 	if err := s.scanf(s, s.n); err != nil {
 		panic(err)
@@ -241,12 +301,20 @@ func (s *schNode) process() {
 					if s.ensureNull && !typeContains(x, "null") {
 						x.Value = ast.NewList(x.Value, ast.NewString("null"))
 					}
+				case "enum":
+					if list, is := x.Value.(*ast.ListLit); is && s.ensureNull && !containsNull(list) {
+						list.Elts = append(list.Elts, ast.NewNull())
+					}
 				}
 			}
 		}
 		return false
 	}, nil)
 
+	if s.ensureNull {
+		s.n.Elts = nullAlternative(s.n.Elts)
+	}
+
 	// Add the $schema field to root only
 	if s.parent == nil {
 		s.n.Elts = append(s.n.Elts, &ast.Field{
-- 
2.43.0


From 3e0b8c19dd97bc2df7239ab127981b9347a8b2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:28 +0000
Subject: [PATCH 13/34] fix: rewrite legacy lens references in chains of
 selectors and in index expressions

---
 encoding/cue/rewrite.go | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/encoding/cue/rewrite.go b/encoding/cue/rewrite.go
index 8ae7a5a..ed89b07 100644
--- a/encoding/cue/rewrite.go
+++ b/encoding/cue/rewrite.go
@@ -161,23 +161,27 @@ type legacyLens struct {
 func (ll legacyLens) rewriteFromTo(cursor astutil.Cursor) bool {
 	switch x := cursor.Node().(type) {
 	case *ast.SelectorExpr:
-		if id, is := x.X.(*ast.Ident); is {
-			switch id.Name {
-			case "from":
-				x.X = ast.NewLit(token.STRING, "input")
-			case "to":
-				x.X = ast.NewLit(token.STRING, "result")
-			default:
-				return false
-			}
-		}
-		// ONLY want to change the first element in any chain of selectors. So
-		// always stop searching once we've encountered a single one of these
-		return false
+		// ONLY want to change the first element in any chain of selectors, which
+		// is the one that is not itself a selector
+		x.X = renameFromTo(x.X)
+	case *ast.IndexExpr:
+		x.X = renameFromTo(x.X)
 	}
 	return true
 }
 
+func renameFromTo(x ast.Expr) ast.Expr {
+	if id, is := x.(*ast.Ident); is {
+		switch id.Name {
+		case "from":
+			return ast.NewLit(token.STRING, "input")
+		case "to":
+			return ast.NewLit(token.STRING, "result")
+		}
+	}
+	return x
+}
+
 func (ll legacyLens) toAST() (ast.Expr, error) {
 	var mapsrc ast.Expr
 	if !ll.mapper.Exists() {
-- 
2.43.0


From 409122aa6c064cf6e14182d7728bde9ecf3f761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:28 +0000
Subject: [PATCH 14/34] fix: #SearchAndValidate returns the validated data, not
 a self-reference

---
 traverse.cue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/traverse.cue b/traverse.cue
index 6762716..4081c3d 100644
--- a/traverse.cue
+++ b/traverse.cue
@@ -18,7 +18,7 @@ package thema
 	out: [ for _, sch in fn.lin.schemas if ((inst & sch._#schema) != _|_) {
 		v:    sch.version
 		lin:  fn.lin
-		inst: inst & sch._#schema
+		inst: fn.inst & sch._#schema
 	}, _|_][0]
 }
 
-- 
2.43.0


From d5f9cb951249665a35009100a09b2ab40ec4c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:28 +0000
Subject: [PATCH 15/34] fix: key examples by their name, not its quoted CUE
 form

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 840e22d..b4e6af0 100644
--- a/schema.go
+++ b/schema.go
@@ -46,7 +46,7 @@ func (sch *schemaDef) Examples() map[string]*Instance {
 
 	examples := make(map[string]*Instance)
 	for it.Next() {
-		label := it.Selector().String()
+		label := it.Label()
 		examples[label] = &Instance{
 			valid: true,
 			raw:   it.Value(),
-- 
2.43.0


From 7d3dd110a51b0039a7d321ed8926d9ffff78b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:18 +0000
Subject: [PATCH 16/34] fix: openapi.GenerateSchema leaves the caller's
 configuration as it is

---
 encoding/openapi/oapi.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/encoding/openapi/oapi.go b/encoding/openapi/oapi.go
index 8d631c8..59ad75e 100644
--- a/encoding/openapi/oapi.go
+++ b/encoding/openapi/oapi.go
@@ -52,12 +52,18 @@ type Config struct {
 // Returns the result as a CUE AST, which is suitable for direct manipulation and
 // marshaling to either JSON or YAML.
 func GenerateSchema(sch thema.Schema, cfg *Config) (*ast.File, error) {
-	if cfg == nil {
-		cfg = &Config{}
-	}
-	if cfg.Config == nil {
-		cfg.Config = &openapi.Config{}
+	// Generation fills in parts of the configuration. Work on a copy, such that the
+	// caller can use theirs again.
+	var ccfg Config
+	var ocfg openapi.Config
+	if cfg != nil {
+		ccfg = *cfg
+		if cfg.Config != nil {
+			ocfg = *cfg.Config
+		}
 	}
+	ccfg.Config = &ocfg
+	cfg = &ccfg
 
 	gen := &oapiGen{
 		cfg: cfg,
-- 
2.43.0


From 94bc1189826f5151a853a734cb8cb758d2c64c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:18 +0000
Subject: [PATCH 17/34] fix: name generated Go packages after the lineage in
 lower case, and leave the caller's configuration as it is

---
 encoding/gocode/gen.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/gocode/gen.go b/encoding/gocode/gen.go
index f76cd5c..e0304c9 100644
--- a/encoding/gocode/gen.go
+++ b/encoding/gocode/gen.go
@@ -94,12 +94,13 @@ func GenerateTypesOpenAPI(sch thema.Schema, cfg *TypeConfigOpenAPI) ([]byte, err
 	if err != nil {
 		return nil, fmt.Errorf("loading generated openapi failed: %w", err)
 	}
-	if cfg.PackageName == "" {
-		cfg.PackageName = sch.Lineage().Name()
+	pkgname := cfg.PackageName
+	if pkgname == "" {
+		pkgname = strings.ToLower(sch.Lineage().Name())
 	}
 
 	ccfg := codegen.Configuration{
-		PackageName: cfg.PackageName,
+		PackageName: pkgname,
 		Compatibility: codegen.CompatibilityOptions{
 			AlwaysPrefixEnumValues: true,
 		},
-- 
2.43.0


From 64f53376f3baa0498130d196d5d198d567df7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:18 +0000
Subject: [PATCH 18/34] fix: typescript.GenerateTypes leaves the caller's
 configuration as it is

---
 encoding/typescript/gen.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/encoding/typescript/gen.go b/encoding/typescript/gen.go
index 4b5a3d9..63985e3 100644
--- a/encoding/typescript/gen.go
+++ b/encoding/typescript/gen.go
@@ -62,18 +62,20 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 	if cfg == nil {
 		cfg = new(TypeConfig)
 	}
-	if cfg.CuetsyConfig == nil {
-		cfg.CuetsyConfig = &cuetsy.Config{
+	tscfg := cfg.CuetsyConfig
+	if tscfg == nil {
+		tscfg = &cuetsy.Config{
 			ImportMapper: cuetsy.IgnoreImportMapper,
 			Export:       true,
 		}
 	}
-	if cfg.RootName == "" {
-		cfg.RootName = strings.Title(sch.Lineage().Name())
+	rootName := cfg.RootName
+	if rootName == "" {
+		rootName = strings.Title(sch.Lineage().Name())
 	}
 
 	schdef := sch.Underlying().LookupPath(cue.MakePath(cue.Hid("_#schema", "github.com/grafana/thema")))
-	tf, err := cuetsy.GenerateAST(schdef, *cfg.CuetsyConfig)
+	tf, err := cuetsy.GenerateAST(schdef, *tscfg)
 	if err != nil {
 		return nil, fmt.Errorf("generating TS for child elements of schema failed: %w", err)
 	}
@@ -87,7 +89,7 @@ func GenerateTypes(sch thema.Schema, cfg *TypeConfig) (*ast.File, error) {
 		if cfg.RootAsType {
 			as = cuetsy.TypeAlias
 		}
-		top, err := cuetsy.GenerateSingleAST(cfg.RootName, schdef, as)
+		top, err := cuetsy.GenerateSingleAST(rootName, schdef, as)
 		if err != nil {
 			return nil, fmt.Errorf("generating TS for schema root failed: %w", err)
 		}
-- 
2.43.0


From 5608a247ae878d669c520710e3ac03364945d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:18 +0000
Subject: [PATCH 19/34] fix: give every enum value a Go constant, even if names
 with a number collide

---
 internal/deepmap/oapi-codegen/pkg/codegen/utils.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/internal/deepmap/oapi-codegen/pkg/codegen/utils.go b/internal/deepmap/oapi-codegen/pkg/codegen/utils.go
index bc391ad..03a50af 100644
--- a/internal/deepmap/oapi-codegen/pkg/codegen/utils.go
+++ b/internal/deepmap/oapi-codegen/pkg/codegen/utils.go
@@ -593,12 +593,17 @@ func SanitizeEnumNames(enumNames, enumValues []string) map[string]string {
 		n, v := p[0], p[1]
 		sanitized := SanitizeGoIdentity(SchemaNameToTypeName(n))
 
-		if _, dup := dupCheck[sanitized]; !dup {
-			sanitizedDeDup[sanitized] = v
-		} else {
-			sanitizedDeDup[sanitized+strconv.Itoa(dupCheck[sanitized])] = v
+		unique := sanitized
+		if _, dup := dupCheck[sanitized]; dup {
+			unique += strconv.Itoa(dupCheck[sanitized])
 		}
 		dupCheck[sanitized]++
+		// The numbered name may itself be that of another value.
+		for _, used := sanitizedDeDup[unique]; used; _, used = sanitizedDeDup[unique] {
+			unique = sanitized + strconv.Itoa(dupCheck[sanitized])
+			dupCheck[sanitized]++
+		}
+		sanitizedDeDup[unique] = v
 	}
 
 	return sanitizedDeDup
-- 
2.43.0


From 064fcb1b29f307ef5dd1bfdcee847bf432558afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:58 +0000
Subject: [PATCH 20/34] fix: hydrate an instance against the schema with its
 data, so that computed fields see their values

---
 instance.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instance.go b/instance.go
index df5e788..b4d4c70 100644
--- a/instance.go
+++ b/instance.go
@@ -60,7 +60,8 @@ func (i *Instance) Hydrate() *Instance {
 	i.check()
 
 	i.sch.Lineage().Runtime()
-	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef), i.raw)
+	// Unify first, so that schema fields referring to other fields see their values
+	ni, err := doHydrate(i.sch.Underlying().LookupPath(pathSchDef).Unify(i.raw), i.raw)
 	// FIXME For now, just no-op it if we error
 	if err != nil {
 		return i
-- 
2.43.0


From d8d853d1f32a0b6d240cea5ae1e7855fa343ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:58 +0000
Subject: [PATCH 21/34] fix: dehydrating keeps an optional field equal to its
 default, as hydrating does not restore it

---
 hydrate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hydrate.go b/hydrate.go
index 1115309..427a9c3 100644
--- a/hydrate.go
+++ b/hydrate.go
@@ -187,6 +187,9 @@ func doDehydrate(sch, data cue.Value) (cue.Value, bool, error) {
 				re, isEqual, err := doDehydrate(iter.Value(), lv)
 				if err == nil && !isEqual {
 					rv = rv.FillPath(cue.MakePath(cue.Str(lable)), re)
+				} else if iter.IsOptional() {
+					// Hydration does not fill in optional fields
+					rv = rv.FillPath(cue.MakePath(cue.Str(lable)), lv)
 				}
 			}
 		}
-- 
2.43.0


From e400a3a9471788d7d857be0f4721f2f9860c6f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 22/34] fix: IsAppendOnly compares versions, defaults and what
 the joinSchema adds

---
 lineage.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lineage.go b/lineage.go
index 6511269..cd224ca 100644
--- a/lineage.go
+++ b/lineage.go
@@ -302,6 +302,10 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 	}
 
 	for i, schema := range oldSchemas {
+		if v, nv := schema.Version(), newSchemas[i].Version(); v != nv {
+			return fmt.Errorf("schema %s can't become version %s once published", v, nv)
+		}
+
 		schemaPath := "schema"
 		oldSchema := schema.Underlying()
 		x := oldSchema.LookupPath(cue.ParsePath(schemaPath))
@@ -312,6 +316,11 @@ func IsAppendOnly(oldLineage Lineage, newLineage Lineage) error {
 		if err := cuetil.Equal(x, y); err != nil {
 			return err
 		}
+
+		// Compare what is validated against, too: it has the joinSchema unified into it
+		if err := cuetil.Equal(oldSchema.LookupPath(pathSchDef), newSchema.LookupPath(pathSchDef)); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From 03f78648d0626331332edaefb0bd1db30d9e006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 23/34] fix: AssignableTo accepts Go floats for float fields
 and compares the elements of maps

---
 assignable.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/assignable.go b/assignable.go
index f97fba5..0aaa172 100644
--- a/assignable.go
+++ b/assignable.go
@@ -101,6 +101,11 @@ func assignable(sch cue.Value, T interface{}) error {
 		// as a single value, without any disjunctions.
 		gval = stripLeadNull(gval)
 
+		// Go floats are encoded as CUE numbers, which allow all floats
+		if sk == cue.FloatKind && gk == cue.NumberKind {
+			gk = cue.FloatKind
+		}
+
 		// strict equality _might_ be too restrictive? But it's better to start there
 		if sk != gk && gk != (cue.TopKind^cue.NullKind) {
 			errs[p.String()] = fmt.Errorf("%s: is kind %s in schema, but kind %s in Go type", p, sk, gk)
@@ -167,6 +172,12 @@ func assignable(sch cue.Value, T interface{}) error {
 			check(gval, sval, p)
 		}
 
+		// The elements of a Go map must allow those of the schema's
+		elem := cue.MakePath(cue.AnyString)
+		if sele, gele := osval.LookupPath(elem), ogval.LookupPath(elem); sele.Exists() && gele.Exists() {
+			check(gele, sele, cue.MakePath(append(p.Selectors(), cue.AnyString)...))
+		}
+
 		for _, vp := range gmap {
 			errs[vp.Path.String()] = fmt.Errorf("%s: field present in Go type, absent from schema", vp.Path.String())
 		}
-- 
2.43.0


From 8dfb646dbb3ef623d4ac5ea621c60e0b0b4621d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:38 +0000
Subject: [PATCH 24/34] fix: TypedInstance.Value decodes data and defaults
 together, at all levels

---
 instance.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instance.go b/instance.go
index b4d4c70..04d5695 100644
--- a/instance.go
+++ b/instance.go
@@ -164,9 +164,14 @@ func (inst *TypedInstance[T]) TypedSchema() TypedSchema[T] {
 func (inst *TypedInstance[T]) Value() (T, error) {
 	inst.check()
 
-	t := inst.tsch.NewT()
+	inst.rt().rl()
+	defer inst.rt().ru()
+
+	// Decode data and defaults together, at all levels. Decoding the data onto a
+	// value holding the defaults would mix elements of default lists into the data's.
+	var t T
 	// TODO figure out correct pointer handling here
-	err := inst.Instance.raw.Decode(&t)
+	err := inst.sch.Underlying().LookupPath(pathSchDef).Unify(inst.raw).Decode(&t)
 	return t, err
 }
 
-- 
2.43.0


From fc1fbd7af727453b69c692c2a3e30bbdd15b25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 25/34] fix: thema data hydrate, dehydrate and validate-any
 search all schemas without -v

---
 cmd/thema/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index ad0647b..c8547dc 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -135,7 +135,7 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	}
 
 	var reterr error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
 			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
@@ -236,7 +236,7 @@ func (dc *dataCommand) runHydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
@@ -280,7 +280,7 @@ func (dc *dataCommand) runDehydrate(cmd *cobra.Command, args []string) error {
 
 	var inst *thema.Instance
 	var err error
-	if dc.lla.dl.sch != nil {
+	if dc.lla.verstr != "" {
 		inst, err = dc.lla.dl.sch.Validate(dc.datval)
 		if err != nil {
 			return err
-- 
2.43.0


From 8ecd2aacfab3f6aa3f69def397706b471946d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 26/34] fix: thema data validate and validate-any honor --quiet

---
 cmd/thema/data.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c8547dc..c60c7dd 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -43,14 +43,14 @@ func (dc *dataCommand) setup(cmd *cobra.Command) {
 	validateCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against. defaults to latest")
 	validateCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateCmd.RunE = dc.runValidate
 
 	dataCmd.AddCommand(validateAnyCmd)
 	validateAnyCmd.Flags().StringVarP(&dc.lla.verstr, "version", "v", "", "schema syntactic version to validate data against")
 	validateAnyCmd.Flags().StringVarP(&dc.format, "format", "e", "", "input data format. Autodetected by default, but can be constrained to \"json\" or \"yaml\".")
 	validateAnyCmd.Flags().BoolVarP(&dc.quiet, "quiet", "q", false, "emit no output, exit status only")
-	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
+	validateAnyCmd.PersistentPreRunE = mergeCobraefuncs(dc.applyQuiet, dc.lla.validateLineageInput, dc.lla.validateVersionInputOptional, dc.validateDataInput)
 	validateAnyCmd.RunE = dc.runValidateAny
 
 	dataCmd.AddCommand(translateCmd)
@@ -138,13 +138,13 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	if dc.lla.verstr != "" {
 		_, reterr = dc.lla.dl.sch.Validate(dc.datval)
 		if reterr == nil {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s\n", dc.lla.dl.sch.Version())
+			dc.printVersion(cmd, dc.lla.dl.sch.Version())
 			return nil
 		}
 	}
 	inst := dc.lla.dl.lin.ValidateAny(dc.datval)
 	if inst != nil {
-		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", inst.Schema().Version())
+		dc.printVersion(cmd, inst.Schema().Version())
 		return nil
 	}
 
@@ -155,6 +155,18 @@ func (dc *dataCommand) runValidateAny(cmd *cobra.Command, args []string) error {
 	return errors.New("")
 }
 
+// applyQuiet keeps cobra from printing errors if --quiet is passed.
+func (dc *dataCommand) applyQuiet(cmd *cobra.Command, args []string) error {
+	cmd.SilenceErrors = dc.quiet
+	return nil
+}
+
+func (dc *dataCommand) printVersion(cmd *cobra.Command, v thema.SyntacticVersion) {
+	if !dc.quiet {
+		fmt.Fprintf(cmd.OutOrStdout(), "%s\n", v)
+	}
+}
+
 var translateCmd = &cobra.Command{
 	Use:   "translate -l <lineage-fs-path> [-p <cue-path>] [--to <synver>] [-e <format>] [<data-fs-path>]",
 	Short: "Translate some valid input data from one schema to another",
-- 
2.43.0


From 1643bcadf628b42b91db8aac976dca96e10ba759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 27/34] fix: thema data accepts --format for data on stdin

---
 cmd/thema/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/data.go b/cmd/thema/data.go
index c60c7dd..475e609 100644
--- a/cmd/thema/data.go
+++ b/cmd/thema/data.go
@@ -399,7 +399,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 		return errors.New("unrecognized format of input data")
 
 	case "json":
-		if ext != "json" {
+		if len(args) == 1 && ext != "json" {
 			return fmt.Errorf("JSON input format specified, but file extension is %s", ext)
 		}
 
@@ -408,7 +408,7 @@ func (dc *dataCommand) validateDataInput(cmd *cobra.Command, args []string) erro
 			return err
 		}
 	case "yaml":
-		if ext != "yaml" {
+		if len(args) == 1 && ext != "yaml" {
 			return fmt.Errorf("YAML input format specified, but file extension is %s", ext)
 		}
 
-- 
2.43.0


From 95803345eb8375e2a8398d2c49d55f461cc2aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 28/34] fix: thema lineage gen does not interpret generated
 text as a format string

---
 cmd/thema/lineage_subgen.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 8b6bf84..82cae0f 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -187,7 +187,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -225,7 +225,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	if err != nil {
 		return err
 	}
-	fmt.Fprintf(cmd.OutOrStdout(), str)
+	fmt.Fprint(cmd.OutOrStdout(), str)
 	return nil
 }
 
@@ -250,7 +250,7 @@ func (gc *genCommand) runGoTypes(cmd *cobra.Command, args []string) error {
 	if gc.stdout {
 		fmt.Fprint(buf, goheader)
 	} else {
-		fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+		fmt.Fprintf(buf, goheaderp, gc.epath)
 	}
 	b, err := gocode.GenerateTypesOpenAPI(gc.sch, &gocode.TypeConfigOpenAPI{
 		PackageName: gc.pkgname,
@@ -361,7 +361,7 @@ func (gc *genCommand) runGoBindings(cmd *cobra.Command, args []string) error {
 		return nil
 	}
 
-	fmt.Fprintf(buf, fmt.Sprintf(goheaderp, gc.epath))
+	fmt.Fprintf(buf, goheaderp, gc.epath)
 	buf.Write(f)
 
 	path := gc.lla.absInput
-- 
2.43.0


From 49b03c0ae80e13942e9dd3e35ff1778fb60e1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 29/34] fix: thema lineage gen gotypes honors --stdout

---
 cmd/thema/lineage_subgen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 82cae0f..eacd6c7 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -76,7 +76,7 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	ggt.Use = "gotypes -l <path> [-p <cue-path>] [-v <synver>] [--pkgname <name>] [--stdout]"
 	ggt.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
 	ggt.Flags().StringVar(&gc.pkgname, "pkgname", "", "Name for generated Go package. Defaults to lowercase lineage name")
-	ggt.Flags().BoolVar(&gc.noembed, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
+	ggt.Flags().BoolVar(&gc.stdout, "stdout", false, "Write to stdout instead of '<lineage.name>_types_gen.go'")
 	ggt.Flags().BoolVarP(&gc.quiet, "quiet", "q", false, "Do not print generated filename")
 	ggt.Run = gc.run
 
-- 
2.43.0


From b9611c055119074c4406ec98aa10d756bd0b6aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 30/34] fix: thema lineage gen openapi defaults to yaml, as
 documented

---
 cmd/thema/lineage_subgen.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index eacd6c7..3050dd8 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -38,8 +38,8 @@ type genCommand struct {
 
 	quiet bool
 
-	// input file format (yaml, json, etc.)
-	format string
+	// output formats (yaml, json)
+	oapiFormat, jschFormat string
 
 	lin thema.Lineage
 	sch thema.Schema
@@ -62,13 +62,13 @@ func (gc *genCommand) setup(cmd *cobra.Command) {
 	gop := genOapiLineageCmd
 	genLineageCmd.AddCommand(gop)
 	gop.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gop.Flags().StringVarP(&gc.format, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
+	gop.Flags().StringVarP(&gc.oapiFormat, "format", "f", "yaml", "output format. \"json\" or \"yaml\".")
 	gop.Run = gc.run
 
 	gj := genJschLineageCmd
 	genLineageCmd.AddCommand(gj)
 	gj.Flags().StringVarP(&gc.lla.verstr, "version", "v", "", "schema syntactic version to generate. Defaults to latest")
-	gj.Flags().StringVarP(&gc.format, "format", "f", "json", "output format. \"json\" or \"yaml\".")
+	gj.Flags().StringVarP(&gc.jschFormat, "format", "f", "json", "output format. \"json\" or \"yaml\".")
 	gj.Run = gc.run
 
 	ggt := genGoTypesLineageCmd
@@ -170,7 +170,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.oapiFormat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
 	}
 	if err != nil {
 		return err
@@ -208,7 +208,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	}
 
 	var str string
-	switch gc.format {
+	switch gc.jschFormat {
 	case "json":
 		var b []byte
 		b, err = rt.Context().BuildFile(f).MarshalJSON()
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.format)
+		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 652895dde56b4aa5918772e3a184cf4824d10ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 31/34] fix: thema lineage gen fails on an unrecognized output
 format

---
 cmd/thema/lineage_subgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_subgen.go b/cmd/thema/lineage_subgen.go
index 3050dd8..56ab961 100644
--- a/cmd/thema/lineage_subgen.go
+++ b/cmd/thema/lineage_subgen.go
@@ -182,7 +182,7 @@ func (gc *genCommand) runOpenAPI(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.oapiFormat)
 	}
 	if err != nil {
 		return err
@@ -220,7 +220,7 @@ func (gc *genCommand) runJSONSchema(cmd *cobra.Command, args []string) error {
 	case "yaml", "yml":
 		str, err = yaml.Marshal(rt.Context().BuildFile(f))
 	default:
-		fmt.Fprintf(cmd.ErrOrStderr(), `unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
+		err = fmt.Errorf(`unrecognized output format %q - must choose "yaml" or "json"`, gc.jschFormat)
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 5690eeb347e0836fd673d2fcdd2ad2bbe2141247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:18 +0000
Subject: [PATCH 32/34] fix: thema lineage init openapi reports invalid JSON

---
 cmd/thema/lineage_init.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 029bb47..7673bd4 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -270,7 +270,8 @@ func inputToFile(input []byte, args []string) (*ast.File, error) {
 	case build.YAML:
 		f, err = yaml.Extract("input", input)
 	case build.JSON:
-		expr, err := json.Extract("input", input)
+		var expr ast.Expr
+		expr, err = json.Extract("input", input)
 		if err == nil {
 			f = &ast.File{
 				Decls: []ast.Decl{expr},
-- 
2.43.0


From 3073ac4ddf546388617b555630138b2414f0e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:12 +0000
Subject: [PATCH 33/34] fix: thema lineage init openapi reads stdin

---
 cmd/thema/lineage_init.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index 7673bd4..e179124 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"bytes"
 	"fmt"
 	"os"
 
@@ -252,17 +251,15 @@ func (ic *initCommand) runJSONSchema(cmd *cobra.Command, args []string) {
 // or stdin (as we do with pathOrStdin) and passed it as input param
 func inputToFile(input []byte, args []string) (*ast.File, error) {
 	if len(args) == 0 {
-		args = append(args, "-")
+		// No extension to go by on stdin, but JSON is a subset of YAML
+		return yaml.Extract("stdin", input)
 	}
 
-	cfg := &load.Config{
-		Stdin: bytes.NewBuffer(input),
-	}
-	binsts := load.Instances(args, cfg)
-	bf := binsts[0].OrphanedFiles[0]
-	if bf == nil {
+	binsts := load.Instances(args, &load.Config{})
+	if len(binsts) == 0 || len(binsts[0].OrphanedFiles) == 0 {
 		return nil, fmt.Errorf("could not load input file")
 	}
+	bf := binsts[0].OrphanedFiles[0]
 
 	var f *ast.File
 	var err error
-- 
2.43.0


From d723d650bfbab0292ece12b89ce81cd96acb9a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:12 +0000
Subject: [PATCH 34/34] fix: thema lineage init jsonschema and openapi check
 and default --name and --package-name

---
 cmd/thema/lineage_init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/thema/lineage_init.go b/cmd/thema/lineage_init.go
index e179124..1ea6c65 100644
--- a/cmd/thema/lineage_init.go
+++ b/cmd/thema/lineage_init.go
@@ -47,12 +47,12 @@ func (ic *initCommand) setup(cmd *cobra.Command) {
 	initLineageCmd.AddCommand(initLineageOpenAPICmd)
 	initLineageOpenAPICmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the OpenAPI document. Default: whole document")
 	initLineageOpenAPICmd.Run = ic.run
-	initLineageOpenAPICmd.PreRunE = ic.processInput
+	initLineageOpenAPICmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 
 	initLineageCmd.AddCommand(initLineageJSONSchemaCmd)
 	initLineageJSONSchemaCmd.Flags().StringVar(&ic.srcpath, "src-subpath", "", "Schema path within the JSON Schema document (e.g. #/...) Default: whole document")
 	initLineageJSONSchemaCmd.Run = ic.run
-	initLineageJSONSchemaCmd.PreRunE = ic.processInput
+	initLineageJSONSchemaCmd.PreRunE = mergeCobraefuncs(ic.processPackageArgs, ic.processInput)
 }
 
 var initLineageCmd = &cobra.Command{
-- 
2.43.0

