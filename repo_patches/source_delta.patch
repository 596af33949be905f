From c850d1bf8141b5f060635ee71c1e8102dc7ebcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 01/46] fix: attribute-only elements with content no longer
 fail to parse

Their readers consumed a single token instead of everything up to their
own end tag, so any content made encoding/xml report an error.
---
 structdrawing.go |  6 +++---
 structeffects.go |  8 ++++----
 structrun.go     |  2 +-
 structsect.go    |  8 ++++----
 structshape.go   |  8 ++++----
 structtable.go   | 12 ++++++------
 structtext.go    |  4 ++--
 7 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 78e348e..52de695 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -365,7 +365,7 @@ func (r *WPExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -397,7 +397,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -426,7 +426,7 @@ func (r *WPDocPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structeffects.go b/structeffects.go
index bfe85aa..b1c0c96 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -145,7 +145,7 @@ func (s *Shade) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -273,7 +273,7 @@ func (r *NonVisualProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElemen
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -320,7 +320,7 @@ func (s *Spacing) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err erro
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
 
@@ -393,6 +393,6 @@ func (i *Ind) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return
 }
diff --git a/structrun.go b/structrun.go
index 1c97952..4df3395 100644
--- a/structrun.go
+++ b/structrun.go
@@ -343,6 +343,6 @@ func (f *RunFonts) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
diff --git a/structsect.go b/structsect.go
index cc66873..d8eb6a9 100644
--- a/structsect.go
+++ b/structsect.go
@@ -133,7 +133,7 @@ func (pgsz *PgSz) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -183,7 +183,7 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -203,7 +203,7 @@ func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -225,6 +225,6 @@ func (dg *DocGrid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
diff --git a/structshape.go b/structshape.go
index 9298006..af8601c 100644
--- a/structshape.go
+++ b/structshape.go
@@ -205,7 +205,7 @@ func (l *ASPLocks) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -318,7 +318,7 @@ func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -495,7 +495,7 @@ func (r *AHeadEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -522,7 +522,7 @@ func (r *ATailEnd) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtable.go b/structtable.go
index 5a2727c..f300b38 100644
--- a/structtable.go
+++ b/structtable.go
@@ -233,7 +233,7 @@ func (tp *WTablePositioningProperties) UnmarshalXML(d *xml.Decoder, start xml.St
 	}
 
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -257,7 +257,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -287,7 +287,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -329,7 +329,7 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
@@ -394,7 +394,7 @@ func (g *WGridCol) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -807,7 +807,7 @@ func (t *WTableBorder) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
diff --git a/structtext.go b/structtext.go
index 5dc4796..a7f3067 100644
--- a/structtext.go
+++ b/structtext.go
@@ -84,7 +84,7 @@ func (t *Tab) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 	}
 	// Consume the end element
-	_, err = d.Token()
+	err = d.Skip()
 	return err
 }
 
@@ -103,7 +103,7 @@ func (f *BarterRabbet) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 		}
 	}
 	// Consume the end element
-	_, err := d.Token()
+	err := d.Skip()
 	return err
 }
 
-- 
2.43.0


From 3f19cfed42e44cef871e65296d5efe975e7d27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 02/46] fix: content of attribute-only children is not read as
 the parent's content

Readers that take everything they need from a child's attributes left the
child's content in the stream, where it was taken for siblings.
---
 structcanvas.go  |  4 ++++
 structdrawing.go | 52 ++++++++++++++++++++++++++++++++++++++++++++++++
 structeffects.go |  8 ++++++++
 structnum.go     |  8 ++++++++
 structpara.go    | 32 +++++++++++++++++++++++++++++
 structrun.go     | 52 ++++++++++++++++++++++++++++++++++++++++++++++++
 structshape.go   | 28 ++++++++++++++++++++++++++
 structtable.go   | 16 +++++++++++++++
 structtext.go    |  5 +++++
 9 files changed, 205 insertions(+)

diff --git a/structcanvas.go b/structcanvas.go
index fe08bb9..779d089 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -118,6 +118,10 @@ func (b *WPCBackground) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) (err er
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "noFill":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				b.NoFill = &struct{}{}
 			default:
 				err = d.Skip() // skip unsupported tags
diff --git a/structdrawing.go b/structdrawing.go
index 52de695..4e701e7 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -163,6 +163,10 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "extent":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.Extent = new(WPExtent)
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
@@ -176,6 +180,10 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 					}
 				}
 			case "effectExtent":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.EffectExtent = new(WPEffectExtent)
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
@@ -450,6 +458,10 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "graphicFrameLocks":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				w.Locks.XMLA = getAtt(tt.Attr, "a")
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
@@ -683,6 +695,10 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "cNvPr":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				v := getAtt(tt.Attr, "id")
 				if v == "" {
 					continue
@@ -731,6 +747,10 @@ func (p *PicCNvPicPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "picLocks":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value APicLocks
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
@@ -833,6 +853,10 @@ func (a *ABlip) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "alphaModFix":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value AAlphaModFix
 				v := getAtt(tt.Attr, "amt")
 				if v == "" {
@@ -995,6 +1019,10 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "off":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
 					case "x":
@@ -1007,6 +1035,10 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 					}
 				}
 			case "ext":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
 					case "cx":
@@ -1019,6 +1051,10 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 					}
 				}
 			case "chOff":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value AOff
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
@@ -1033,6 +1069,10 @@ func (a *AXfrm) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 				}
 				a.ChOff = &value
 			case "chExt":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value AExt
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
@@ -1239,6 +1279,10 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "simplePos":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.SimplePosXY = new(WPSimplePos)
 				for _, v := range tt.Attr {
 					switch v.Name.Local {
@@ -1278,8 +1322,16 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 					return err
 				}
 			case "wrapNone":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.WrapNone = &struct{}{}
 			case "wrapSquare":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.WrapSquare = new(WPWrapSquare)
 				r.WrapSquare.WrapText = getAtt(tt.Attr, "wrapText")
 			case "docPr":
diff --git a/structeffects.go b/structeffects.go
index b1c0c96..c44ae00 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -215,6 +215,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
 			case "solidFill":
 				var value ASolidFill
@@ -231,6 +235,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 				}
 				w.BlipFill = &value
 			case "noFill":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				w.NoFill = &struct{}{}
 			case "ln":
 				var ln ALine
diff --git a/structnum.go b/structnum.go
index 0e239a7..d9cc16e 100644
--- a/structnum.go
+++ b/structnum.go
@@ -55,10 +55,18 @@ func (n *NumProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "numId":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value NumID
 				value.Val = getAtt(tt.Attr, "val")
 				n.NumID = &value
 			case "ilvl":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Ilevel
 				value.Val = getAtt(tt.Attr, "val")
 				n.Ilvl = &value
diff --git a/structpara.go b/structpara.go
index 8b5d31e..b1d4f45 100644
--- a/structpara.go
+++ b/structpara.go
@@ -81,6 +81,10 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.Ind = &value
 			case "jc":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				p.Justification = &Justification{Val: getAtt(tt.Attr, "val")}
 			case "shd":
 				var value Shade
@@ -90,6 +94,10 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.Shade = &value
 			case "kern":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Kern
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -108,10 +116,22 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.RunProperties = &value
 			case "pStyle":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				p.Style = &Style{Val: getAtt(tt.Attr, "val")}
 			case "textAlignment":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				p.TextAlignment = &TextAlignment{Val: getAtt(tt.Attr, "val")}
 			case "adjustRightInd":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value AdjustRightInd
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -123,6 +143,10 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.AdjustRightInd = &value
 			case "snapToGrid":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value SnapToGrid
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -134,6 +158,10 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.SnapToGrid = &value
 			case "kinsoku":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Kinsoku
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -145,6 +173,10 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				}
 				p.Kinsoku = &value
 			case "overflowPunct":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value OverflowPunct
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
diff --git a/structrun.go b/structrun.go
index 4df3395..343b82f 100644
--- a/structrun.go
+++ b/structrun.go
@@ -240,24 +240,52 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Fonts = &value
 			case "b":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.Bold = &Bold{}
 			case "iCs":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.ICs = &struct{}{}
 			case "i":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.Italic = &Italic{}
 			case "u":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Underline
 				value.Val = getAtt(tt.Attr, "val")
 				r.Underline = &value
 			case "highlight":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Highlight
 				value.Val = getAtt(tt.Attr, "val")
 				r.Highlight = &value
 			case "color":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Color
 				value.Val = getAtt(tt.Attr, "val")
 				r.Color = &value
 			case "sz":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Size
 				value.Val = getAtt(tt.Attr, "val")
 				r.Size = &value
@@ -269,14 +297,26 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Spacing = &value
 			case "szCs":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value SizeCs
 				value.Val = getAtt(tt.Attr, "val")
 				r.SizeCs = &value
 			case "rStyle":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value RunStyle
 				value.Val = getAtt(tt.Attr, "val")
 				r.RunStyle = &value
 			case "pStyle":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Style
 				value.Val = getAtt(tt.Attr, "val")
 				r.Style = &value
@@ -288,6 +328,10 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Shade = &value
 			case "kern":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Kern
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -299,10 +343,18 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				}
 				r.Kern = &value
 			case "vertAlign":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value VertAlign
 				value.Val = getAtt(tt.Attr, "val")
 				r.VertAlign = &value
 			case "strike":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value Strike
 				value.Val = getAtt(tt.Attr, "val")
 				r.Strike = &value
diff --git a/structshape.go b/structshape.go
index af8601c..b8925ba 100644
--- a/structshape.go
+++ b/structshape.go
@@ -121,6 +121,10 @@ func (w *WPSCNvCnPr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "cxnSpLocks":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				w.ConnShapeLocks = &struct{}{}
 			default:
 				err = d.Skip() // skip unsupported tags
@@ -258,6 +262,10 @@ func (r *ABlipFill) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err er
 				}
 				r.Blip = &value
 			case "srcRect":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.SrcRect = new(ASrcRect)
 			case "tile":
 				var value ATile
@@ -370,6 +378,10 @@ func (l *ALine) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "noFill":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				l.NoFill = &struct{}{}
 			case "solidFill":
 				l.SolidFill = new(ASolidFill)
@@ -378,14 +390,26 @@ func (l *ALine) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error)
 					return err
 				}
 			case "prstDash":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value APrstDash
 				value.Val = getAtt(tt.Attr, "val")
 				l.PrstDash = &value
 			case "miter":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				var value AMiter
 				value.Limit = getAtt(tt.Attr, "lim")
 				l.Miter = &value
 			case "round":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				l.Round = &struct{}{}
 			case "headEnd":
 				l.HeadEnd = new(AHeadEnd)
@@ -665,6 +689,10 @@ func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "noAutofit":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.NoAutofit = &struct{}{}
 			default:
 				err = d.Skip() // skip unsupported elements
diff --git a/structtable.go b/structtable.go
index f300b38..de72fd3 100644
--- a/structtable.go
+++ b/structtable.go
@@ -605,6 +605,10 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 		if tt, ok := t.(xml.StartElement); ok {
 			switch tt.Name.Local {
 			case "tcW":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.TableCellWidth = new(WTableCellWidth)
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
@@ -616,8 +620,16 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				}
 				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.VMerge = &WvMerge{Val: getAtt(tt.Attr, "val")}
 			case "gridSpan":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.GridSpan = new(WGridSpan)
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
@@ -628,6 +640,10 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 					return err
 				}
 			case "vAlign":
+				err = d.Skip() // nothing inside is read
+				if err != nil {
+					return err
+				}
 				r.VAlign = new(WVerticalAlignment)
 				r.VAlign.Val = getAtt(tt.Attr, "val")
 			case "tcBorders":
diff --git a/structtext.go b/structtext.go
index a7f3067..ef97362 100644
--- a/structtext.go
+++ b/structtext.go
@@ -52,6 +52,11 @@ func (tb *Tabs) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 					return err
 				}
 				tb.Tabs = append(tb.Tabs, &value)
+				continue
+			}
+			err = d.Skip() // skip unsupported tags
+			if err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 45f250a1adec9ad67b8ee67f58986e15d3d64790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 03/46] fix: AlternateContent with whitespace or several
 drawings keeps the run intact

White space before the choice made the reader skip the rest of the run, and
only the first token of the choice was looked at.
---
 structrun.go | 84 +++++++++++++++++++++++++++++++---------------------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/structrun.go b/structrun.go
index 343b82f..51d1743 100644
--- a/structrun.go
+++ b/structrun.go
@@ -137,47 +137,63 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 			return nil, nil
 		}
 		child = &value*/
-	altcont:
-		for {
-			tok, err1 := d.Token()
-			if err1 == io.EOF {
-				break
-			}
-			if err1 != nil {
-				return nil, err1
-			}
+		err = r.parseAlternateContent(d)
+	default:
+		err = d.Skip() // skip unsupported tags
+	}
+	return
+}
 
-			if ttt, ok := tok.(xml.StartElement); ok && ttt.Name.Local == "Choice" {
-				for _, attr := range ttt.Attr {
-					if attr.Name.Local == "Requires" {
-						if attr.Value == "wps" || attr.Value == "wpc" || attr.Value == "wpg" {
-							tok, err = d.Token() // go into choice
-							if err != nil {
-								return nil, err
-							}
-							if ttt, ok := tok.(xml.StartElement); ok {
-								child, err = r.parse(d, ttt)
-							}
-							break altcont
-						}
-						break
-					}
-				}
+// parseAlternateContent reads the children of the first supported choice
+// into the run and skips everything else up to the end of the element
+func (r *Run) parseAlternateContent(d *xml.Decoder) error {
+	chosen := false
+	for {
+		tok, err := d.Token()
+		if err != nil {
+			return err
+		}
+		switch tt := tok.(type) {
+		case xml.EndElement:
+			return nil
+		case xml.StartElement:
+			requires := ""
+			if tt.Name.Local == "Choice" && !chosen {
+				requires = getAtt(tt.Attr, "Requires")
 			}
-			if et, ok := tok.(xml.EndElement); ok {
-				if et.Name.Local == "AlternateContent" {
-					break
-				}
+			switch requires {
+			case "wps", "wpc", "wpg":
+				chosen = true
+				err = r.parseChoice(d)
+			default:
+				err = d.Skip() // skip unsupported tags
 			}
-			err = d.Skip() // skip unsupported tags
 			if err != nil {
-				return nil, err
+				return err
+			}
+		}
+	}
+}
+
+func (r *Run) parseChoice(d *xml.Decoder) error {
+	for {
+		tok, err := d.Token()
+		if err != nil {
+			return err
+		}
+		switch tt := tok.(type) {
+		case xml.EndElement:
+			return nil
+		case xml.StartElement:
+			child, err := r.parse(d, tt)
+			if err != nil {
+				return err
+			}
+			if child != nil {
+				r.Children = append(r.Children, child)
 			}
 		}
-	default:
-		err = d.Skip() // skip unsupported tags
 	}
-	return
 }
 
 // KeepElements keep named elems amd removes others
-- 
2.43.0


From 8a21392c86510d2ea427b08bc031bd7d4ad965ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 04/46] fix: read the attributes and content of a tab in a run

---
 structrun.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structrun.go b/structrun.go
index 51d1743..d08f83a 100644
--- a/structrun.go
+++ b/structrun.go
@@ -115,7 +115,12 @@ func (r *Run) parse(d *xml.Decoder, tt xml.StartElement) (child interface{}, err
 		}
 		child = &value
 	case "tab":
-		child = &Tab{}
+		var value Tab
+		err = d.DecodeElement(&value, &tt)
+		if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+			return nil, err
+		}
+		child = &value
 	case "br":
 		var value BarterRabbet
 		err = d.DecodeElement(&value, &tt)
-- 
2.43.0


From 6145ad46800e1096c3fef105c9c9c80eb196dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 05/46] fix: keep all character data of a text element

Comments, CDATA sections and processing instructions split character data
into several tokens; only the last one was kept.
---
 structtext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index ef97362..635a55a 100644
--- a/structtext.go
+++ b/structtext.go
@@ -141,7 +141,7 @@ func (r *Text) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		}
 
 		if tt, ok := t.(xml.CharData); ok {
-			r.Text = string(tt) // implicitly copy
+			r.Text += string(tt) // implicitly copy
 		}
 	}
 
-- 
2.43.0


From 0cfea682e6ea1b2498ca37ced4935f6169abc662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:15 +0000
Subject: [PATCH 06/46] fix: MergeText appends the text it has collected and
 keeps the order

It appended the wrong Text value after merging two runs, and it merged runs
across other children of the paragraph.
---
 structtext.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/structtext.go b/structtext.go
index 635a55a..931af6f 100644
--- a/structtext.go
+++ b/structtext.go
@@ -297,7 +297,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 							if noappend {
 								noappend = false
 							} else {
-								prevrun.Children = append(prevrun.Children, t)
+								prevrun.Children = append(prevrun.Children, prevtext)
 							}
 							prevtext = &Text{}
 						}
@@ -305,13 +305,14 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					}
 				}
 				if prevtext.Text != "" && !noappend {
-					prevrun.Children = append(prevrun.Children, t)
+					prevrun.Children = append(prevrun.Children, prevtext)
 				}
 			} else {
 				prevrun = &r
 				np.Children = append(np.Children, &r)
 			}
 		default:
+			prevrun = nil // runs are contiguous only if nothing is between them
 			np.Children = append(np.Children, o)
 		}
 	}
-- 
2.43.0


From 5f3938033ac847e0a383dec5a2480abe33a87131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 07/46] fix: MergeText keeps xml:space and instruction texts

Without xml:space the blanks at the ends of the merged text get lost when
the document is opened, and only the first run's InstrText survived a merge.
---
 structtext.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/structtext.go b/structtext.go
index 931af6f..74b9bd6 100644
--- a/structtext.go
+++ b/structtext.go
@@ -261,6 +261,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 					if x.Text != "" {
 						t.Text += x.Text
 					}
+					if x.XMLSpace != "" {
+						t.XMLSpace = x.XMLSpace
+					}
 				default:
 					if t.Text != "" {
 						r.Children = append(r.Children, t)
@@ -272,7 +275,7 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 			if t.Text != "" {
 				r.Children = append(r.Children, t)
 			}
-			if prevrun != nil && canmerge(prevrun, &r) {
+			if prevrun != nil && prevrun.InstrText == "" && r.InstrText == "" && canmerge(prevrun, &r) {
 				var prevtext *Text
 				noappend := false
 				if len(prevrun.Children) == 0 {
@@ -292,6 +295,9 @@ func (p *Paragraph) MergeText(canmerge RunMergeRule) (np Paragraph) {
 						if x.Text != "" {
 							prevtext.Text += x.Text
 						}
+						if x.XMLSpace != "" {
+							prevtext.XMLSpace = x.XMLSpace
+						}
 					default:
 						if prevtext.Text != "" {
 							if noappend {
-- 
2.43.0


From e0082a095f09430a79c248532ed6c5a440801f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 08/46] fix: WriteTo reports a failure to complete the archive

The error of zip.Writer.Close, which writes the central directory and
flushes the buffered data, was dropped.
---
 docx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index c7753f4..25c4c45 100644
--- a/docx.go
+++ b/docx.go
@@ -151,9 +151,13 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
 	zipWriter := zip.NewWriter(writer)
-	defer zipWriter.Close()
 
-	return 0, f.pack(zipWriter)
+	err = f.pack(zipWriter)
+	if err != nil {
+		_ = zipWriter.Close()
+		return
+	}
+	return 0, zipWriter.Close()
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From e06ff9013735741831a5746006780e588b9725ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 09/46] fix: close every file opened while packing and
 unpacking

Template files were never closed, a media entry was left open when reading
it failed.
---
 pack.go   | 12 ++++++++----
 unpack.go |  3 ++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pack.go b/pack.go
index b864691..b1d4b05 100644
--- a/pack.go
+++ b/pack.go
@@ -36,17 +36,21 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 
 	if f.template != "" {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open("xml/" + f.template + "/" + name)
+			file, err := f.tmplfs.Open("xml/" + f.template + "/" + name)
 			if err != nil {
-				return
+				return err
 			}
+			defer file.Close()
+			files[name] = file
 		}
 	} else {
 		for _, name := range f.tmpfslst {
-			files[name], err = f.tmplfs.Open(name)
+			file, err := f.tmplfs.Open(name)
 			if err != nil {
-				return
+				return err
 			}
+			defer file.Close()
+			files[name] = file
 		}
 	}
 
diff --git a/unpack.go b/unpack.go
index 8b7f8a9..fbe98c0 100644
--- a/unpack.go
+++ b/unpack.go
@@ -136,11 +136,12 @@ func (f *Docx) parseMedia(file *zip.File) error {
 	if err != nil {
 		return err
 	}
+	defer zf.Close()
 	data, err := io.ReadAll(zf)
 	if err != nil {
 		return err
 	}
 	f.mediaNameIdx[name] = len(f.media)
 	f.media = append(f.media, Media{Name: name, Data: data})
-	return zf.Close()
+	return nil
 }
-- 
2.43.0


From fe1cce94fc178ea803f62c88ac07ce27e98021b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 10/46] fix: packages with directory entries can be saved again

A directory entry was remembered as a file, which pack could not read.
---
 unpack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpack.go b/unpack.go
index fbe98c0..45dd66c 100644
--- a/unpack.go
+++ b/unpack.go
@@ -44,6 +44,9 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
 	for _, f := range zipReader.File {
+		if f.FileInfo().IsDir() { // directories have no content to keep
+			continue
+		}
 		if f.Name == "word/_rels/document.xml.rels" {
 			err = docx.parseDocRelation(f)
 			if err != nil {
-- 
2.43.0


From 6fed77784edee1a5829861bd12710b73e65c2a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:08 +0000
Subject: [PATCH 11/46] fix: relationships part defaults to the package
 relationships namespace

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 45dd66c..ec3865f 100644
--- a/unpack.go
+++ b/unpack.go
@@ -112,7 +112,7 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_R
+	f.docRelation.Xmlns = XMLNS_REL
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From 478dfa2cea2835c2d00b5e13344b9155b119096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:09 +0000
Subject: [PATCH 12/46] fix: a new image never takes the name of a loaded one

imageID starts at 0 (LoadBodyItems) or 100000 (Parse) whatever the names of
the loaded media are; a clash replaced the loaded media item on saving.
---
 image.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/image.go b/image.go
index 93183c2..6caf5c0 100644
--- a/image.go
+++ b/image.go
@@ -27,7 +27,11 @@ import (
 
 // addImage add image to docx and return its rId
 func (f *Docx) addImage(format string, data []byte) string {
-	m := Media{Name: "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format, Data: data}
+	name := "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	for f.Media(name) != nil { // the name has been taken by a loaded media
+		name = "image" + strconv.Itoa(int(atomic.AddUintptr(&f.imageID, 1))) + "." + format
+	}
+	m := Media{Name: name, Data: data}
 	f.addMedia(m)
 	return f.addImageRelation(m)
 }
-- 
2.43.0


From e0377bcbc2b5bdee5549d9ffbb85fd85ae973d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 13/46] fix: GetInt reports what is not a number and reads
 on/off words

The decoders tolerate errors that start with "expected", which is how Sscanf
says that there is no number, so such a number silently ended its element.
Infinities and numbers out of range became an arbitrary integer.
---
 helper.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/helper.go b/helper.go
index d91ad81..5bcabab 100644
--- a/helper.go
+++ b/helper.go
@@ -21,7 +21,9 @@
 package docx
 
 import (
+	"errors"
 	"fmt"
+	"math"
 	"strconv"
 	"unsafe"
 )
@@ -49,10 +51,23 @@ func GetInt64(s string) (int64, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
-		return int64(v2), nil
+		if v2 > math.MinInt64 && v2 < math.MaxInt64 {
+			return int64(v2), nil
+		}
+		return 0, errors.New("integer out of range: " + s)
+	}
+	switch s {
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil {
+		// wrapped because an error that starts with "expected" is tolerated while decoding
+		return 0, fmt.Errorf("invalid integer %q: %w", s, err)
+	}
+	return v, nil
 }
 
 // GetInt from string
@@ -63,8 +78,21 @@ func GetInt(s string) (int, error) {
 	}
 	v2, err := strconv.ParseFloat(s, 64)
 	if err == nil {
-		return int(v2), nil
+		if v2 > math.MinInt && v2 < math.MaxInt {
+			return int(v2), nil
+		}
+		return 0, errors.New("integer out of range: " + s)
+	}
+	switch s {
+	case "true", "on":
+		return 1, nil
+	case "false", "off":
+		return 0, nil
 	}
 	_, err = fmt.Sscanf(s, "%d", &v)
-	return v, err
+	if err != nil {
+		// wrapped because an error that starts with "expected" is tolerated while decoding
+		return 0, fmt.Errorf("invalid integer %q: %w", s, err)
+	}
+	return v, nil
 }
-- 
2.43.0


From 90de310350b5806223ce06dafb52a3e198ee2dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 14/46] fix: read table look attributes as numbers

Only the first byte was looked at, so that e.g. "true" became 68.
---
 structtable.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/structtable.go b/structtable.go
index de72fd3..02bbb4d 100644
--- a/structtable.go
+++ b/structtable.go
@@ -305,6 +305,7 @@ type WTableLook struct {
 
 // UnmarshalXML ...
 func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var err error
 	for _, attr := range start.Attr {
 		if attr.Value == "" {
 			continue
@@ -313,23 +314,26 @@ func (t *WTableLook) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error
 		case "val":
 			t.Val = attr.Value
 		case "firstRow":
-			t.FirstRow = int(attr.Value[0] - '0')
+			t.FirstRow, err = GetInt(attr.Value)
 		case "lastRow":
-			t.LastRow = int(attr.Value[0] - '0')
+			t.LastRow, err = GetInt(attr.Value)
 		case "firstColumn":
-			t.FirstCol = int(attr.Value[0] - '0')
+			t.FirstCol, err = GetInt(attr.Value)
 		case "lastColumn":
-			t.LastCol = int(attr.Value[0] - '0')
+			t.LastCol, err = GetInt(attr.Value)
 		case "noHBand":
-			t.NoHBand = int(attr.Value[0] - '0')
+			t.NoHBand, err = GetInt(attr.Value)
 		case "noVBand":
-			t.NoVBand = int(attr.Value[0] - '0')
+			t.NoVBand, err = GetInt(attr.Value)
 		default:
 			// ignore other attributes
 		}
+		if err != nil {
+			return err
+		}
 	}
 	// Consume the end element
-	err := d.Skip()
+	err = d.Skip()
 	return err
 }
 
-- 
2.43.0


From 24e4bf1046b43680b67a06407d9c3fe96145af61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 15/46] fix: declare the prefixes of drawings whatever the
 source declared

A drawing whose a: or pic: prefix was declared on an ancestor or had another
name was written with an undeclared prefix.
---
 structcanvas.go  |  1 -
 structdrawing.go | 14 +++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/structcanvas.go b/structcanvas.go
index 779d089..0d113c4 100644
--- a/structcanvas.go
+++ b/structcanvas.go
@@ -76,7 +76,6 @@ func (c *WordprocessingCanvas) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				c.Items = append(c.Items, &value)
 			case "wgp":
 				var value WordprocessingGroup
diff --git a/structdrawing.go b/structdrawing.go
index 4e701e7..38f7c60 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -446,6 +446,7 @@ type WPCNvGraphicFramePr struct {
 
 // UnmarshalXML ...
 func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+	w.Locks.XMLA = XMLNS_DRAWINGML_MAIN
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
@@ -462,7 +463,10 @@ func (w *WPCNvGraphicFramePr) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				if err != nil {
 					return err
 				}
-				w.Locks.XMLA = getAtt(tt.Attr, "a")
+				xmla := getAtt(tt.Attr, "a")
+				if xmla != "" {
+					w.Locks.XMLA = xmla
+				}
 				v := getAtt(tt.Attr, "noChangeAspect")
 				if v == "" {
 					continue
@@ -501,6 +505,7 @@ type AGraphic struct {
 
 // UnmarshalXML ...
 func (a *AGraphic) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	a.XMLA = XMLNS_DRAWINGML_MAIN // the prefix may be declared elsewhere
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "a":
@@ -581,7 +586,6 @@ func (a *AGraphicData) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.XMLPIC = getAtt(tt.Attr, "pic")
 				a.Pic = &value
 			case "wsp":
 				var value WordprocessingShape
@@ -629,7 +633,11 @@ type Picture struct {
 }
 
 // UnmarshalXML ...
-func (p *Picture) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
+func (p *Picture) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	p.XMLPIC = getAtt(start.Attr, "pic")
+	if p.XMLPIC == "" { // the prefix may be declared elsewhere
+		p.XMLPIC = XMLNS_DRAWINGML_PICTURE
+	}
 	for {
 		t, err := d.Token()
 		if err == io.EOF {
-- 
2.43.0


From 9621eeb7f372007beb1a23bb726ab8e81e5255a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 16/46] fix: keep preset adjustments, cell width types and
 picture names

They were dropped in shapes, for cells without a width value and for
pictures without an id.
---
 structdrawing.go | 2 +-
 structeffects.go | 5 ++---
 structtable.go   | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 38f7c60..cb536b3 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -707,6 +707,7 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 				if err != nil {
 					return err
 				}
+				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 				v := getAtt(tt.Attr, "id")
 				if v == "" {
 					continue
@@ -715,7 +716,6 @@ func (p *PICNonVisualPicProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElem
 				if err != nil {
 					return err
 				}
-				p.NonVisualDrawingProperties.Name = getAtt(tt.Attr, "name")
 			case "cNvPicPr":
 				err = d.DecodeElement(&p.CNvPicPr, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
diff --git a/structeffects.go b/structeffects.go
index c44ae00..b19ef4e 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -215,11 +215,10 @@ func (w *ShapeProperties) UnmarshalXML(d *xml.Decoder, start xml.StartElement) e
 					return err
 				}
 			case "prstGeom":
-				err = d.Skip() // nothing inside is read
-				if err != nil {
+				err = d.DecodeElement(&w.PrstGeom, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				w.PrstGeom.Prst = getAtt(tt.Attr, "prst")
 			case "solidFill":
 				var value ASolidFill
 				err = d.DecodeElement(&value, &tt)
diff --git a/structtable.go b/structtable.go
index 02bbb4d..5993347 100644
--- a/structtable.go
+++ b/structtable.go
@@ -614,6 +614,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 					return err
 				}
 				r.TableCellWidth = new(WTableCellWidth)
+				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 				v := getAtt(tt.Attr, "w")
 				if v == "" {
 					continue
@@ -622,7 +623,6 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 				if err != nil {
 					return err
 				}
-				r.TableCellWidth.Type = getAtt(tt.Attr, "type")
 			case "vMerge":
 				err = d.Skip() // nothing inside is read
 				if err != nil {
-- 
2.43.0


From f6e5cb12f710d27ad34e699070a871c48a88aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 17/46] fix: copying a drawing keeps groups, attaches the copy
 and never panics

Groups were lost, the copies of shapes and canvases belonged to the source
document, and drawings without graphic, data, names or a media target made
AppendFile and SplitByParagraph panic. Inside shapes, canvases and groups the
content is still shared (TODO as before).
---
 media.go         |  11 +++
 structdrawing.go | 205 +++++++++++++++++++++--------------------------
 2 files changed, 103 insertions(+), 113 deletions(-)

diff --git a/media.go b/media.go
index 01acb24..f44e7e6 100644
--- a/media.go
+++ b/media.go
@@ -20,6 +20,8 @@
 
 package docx
 
+import "strings"
+
 //nolint:revive,stylecheck
 const MEDIA_FOLDER = `word/media/`
 
@@ -43,6 +45,15 @@ func (f *Docx) Media(name string) *Media {
 	return &f.media[i]
 }
 
+// embeddedMedia gets the media embedded by a relationship (or nil on notfound)
+func (f *Docx) embeddedMedia(rid string) *Media {
+	tgt, err := f.ReferTarget(rid)
+	if err != nil || !strings.HasPrefix(tgt, "media/") {
+		return nil
+	}
+	return f.Media(tgt[len("media/"):])
+}
+
 // addMedia append the media to docx's media list
 func (f *Docx) addMedia(m Media) {
 	f.mediaNameIdx[m.Name] = len(f.media)
diff --git a/structdrawing.go b/structdrawing.go
index cb536b3..6889019 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -91,19 +91,14 @@ func (r *Drawing) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 }
 
 func (r *Drawing) copymedia(to *Docx) *Drawing {
+	nd := &Drawing{file: to}
 	if r.Inline != nil {
-		return &Drawing{
-			Inline: r.Inline.copymedia(to),
-			file:   to,
-		}
+		nd.Inline = r.Inline.copymedia(to)
 	}
 	if r.Anchor != nil {
-		return &Drawing{
-			Anchor: r.Anchor.copymedia(to),
-			file:   to,
-		}
+		nd.Anchor = r.Anchor.copymedia(to)
 	}
-	return &Drawing{file: to}
+	return nd
 }
 
 // WPInline is an element that represents an inline image within a text paragraph.
@@ -292,61 +287,53 @@ func (r *WPInline) String() string {
 }
 
 func (r *WPInline) copymedia(to *Docx) *WPInline {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			inln := *r
-			grph := *r.Graphic
-			inln.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			inln.file = to
-
-			inln.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &inln
-		}
-		return nil
+	inln := *r
+	inln.file = to
+	if r.Graphic == nil {
+		return &inln
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+	grph := *r.Graphic
+	grph.file = to
+	inln.Graphic = &grph
+	if r.Graphic.GraphicData == nil {
+		return &inln
 	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	grphdata := *r.Graphic.GraphicData
+	grphdata.file = to
+	grph.GraphicData = &grphdata
+	//TODO: copy shape, canvas and group media
+	if grphdata.Pic != nil && grphdata.Pic.BlipFill != nil {
+		pic := *grphdata.Pic
+		grphdata.Pic = &pic
+		m := r.file.embeddedMedia(pic.BlipFill.Blip.Embed)
+		if m == nil {
+			return nil
+		}
+		format := m.Name[strings.LastIndex(m.Name, ".")+1:]
+		idn := int(atomic.AddUintptr(&to.docID, 1))
+		id := int(to.IncreaseID("图片"))
+		ids := strconv.Itoa(id)
+		rid := to.addImage(format, m.Data)
+
+		inln.DocPr = &WPDocPr{
+			ID:   idn,
+			Name: "图片 " + ids,
+		}
+		nvpr := &PICNonVisualPicProperties{
+			NonVisualDrawingProperties: NonVisualProperties{
+				ID:   id,
+				Name: "图片 " + ids,
+			},
+		}
+		if pic.NonVisualPicProperties != nil {
+			nvpr.CNvPicPr = pic.NonVisualPicProperties.CNvPicPr
+		}
+		pic.NonVisualPicProperties = nvpr
+		blip := *pic.BlipFill
+		blip.Blip.Embed = rid
+		pic.BlipFill = &blip
 	}
-	return nil
+	return &inln
 }
 
 // WPExtent represents the extent of a drawing in a Word document.
@@ -1434,61 +1421,53 @@ func (r *WPAnchor) String() string {
 }
 
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
-	if r.Graphic.GraphicData.Pic != nil {
-		if r.Graphic.GraphicData.Pic.BlipFill != nil {
-			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
-			if err != nil {
-				return nil
-			}
-			format := tgt[strings.LastIndex(tgt, ".")+1:]
-			idn := int(atomic.AddUintptr(&to.docID, 1))
-			id := int(to.IncreaseID("图片"))
-			ids := strconv.Itoa(id)
-			m := r.file.Media(tgt[6:])
-			if m == nil {
-				return nil
-			}
-			rid := to.addImage(format, m.Data)
-			anch := *r
-			grph := *r.Graphic
-			anch.Graphic = &grph
-			grphdata := *r.Graphic.GraphicData
-			grph.GraphicData = &grphdata
-			pic := *r.Graphic.GraphicData.Pic
-			grphdata.Pic = &pic
-			grphdata.file = to
-			grph.file = to
-			anch.file = to
-
-			anch.DocPr = &WPDocPr{
-				ID:   idn,
-				Name: "图片 " + ids,
-			}
-			pic.NonVisualPicProperties = &PICNonVisualPicProperties{
-				NonVisualDrawingProperties: NonVisualProperties{
-					ID:   id,
-					Name: "图片 " + ids,
-				},
-				CNvPicPr: r.Graphic.GraphicData.Pic.NonVisualPicProperties.CNvPicPr,
-			}
-			pic.BlipFill = &PICBlipFill{
-				Blip: ABlip{
-					Embed:  rid,
-					Cstate: r.Graphic.GraphicData.Pic.BlipFill.Blip.Cstate,
-				},
-				Stretch: r.Graphic.GraphicData.Pic.BlipFill.Stretch,
-			}
-			return &anch
-		}
-		return nil
+	anch := *r
+	anch.file = to
+	if r.Graphic == nil {
+		return &anch
 	}
-	if r.Graphic.GraphicData.Shape != nil { // shape has no media
-		return r
+	grph := *r.Graphic
+	grph.file = to
+	anch.Graphic = &grph
+	if r.Graphic.GraphicData == nil {
+		return &anch
 	}
-	if r.Graphic.GraphicData.Canvas != nil { //TODO: copy canvas media
-		return r
+	grphdata := *r.Graphic.GraphicData
+	grphdata.file = to
+	grph.GraphicData = &grphdata
+	//TODO: copy shape, canvas and group media
+	if grphdata.Pic != nil && grphdata.Pic.BlipFill != nil {
+		pic := *grphdata.Pic
+		grphdata.Pic = &pic
+		m := r.file.embeddedMedia(pic.BlipFill.Blip.Embed)
+		if m == nil {
+			return nil
+		}
+		format := m.Name[strings.LastIndex(m.Name, ".")+1:]
+		idn := int(atomic.AddUintptr(&to.docID, 1))
+		id := int(to.IncreaseID("图片"))
+		ids := strconv.Itoa(id)
+		rid := to.addImage(format, m.Data)
+
+		anch.DocPr = &WPDocPr{
+			ID:   idn,
+			Name: "图片 " + ids,
+		}
+		nvpr := &PICNonVisualPicProperties{
+			NonVisualDrawingProperties: NonVisualProperties{
+				ID:   id,
+				Name: "图片 " + ids,
+			},
+		}
+		if pic.NonVisualPicProperties != nil {
+			nvpr.CNvPicPr = pic.NonVisualPicProperties.CNvPicPr
+		}
+		pic.NonVisualPicProperties = nvpr
+		blip := *pic.BlipFill
+		blip.Blip.Embed = rid
+		pic.BlipFill = &blip
 	}
-	return nil
+	return &anch
 }
 
 // WPSimplePos represents the position of an object in a Word document.
-- 
2.43.0


From efd516d01e52ef019fbb31ba80d95f632e22da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:35 +0000
Subject: [PATCH 18/46] fix: rendering a drawing as text never panics

It did when the graphic or its data was missing, the picture had no fill, or
the relationship did not lead to a media item of the document.
---
 structdrawing.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index 6889019..034ed88 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -230,6 +230,9 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 
 // String ...
 func (r *WPInline) String() string {
+	if r.Graphic == nil || r.Graphic.GraphicData == nil {
+		return "![inln?](unknown)"
+	}
 	sb := strings.Builder{}
 	if r.Graphic.GraphicData.Pic != nil {
 		sb.WriteString("![inlnim ")
@@ -238,7 +241,7 @@ func (r *WPInline) String() string {
 			sb.WriteString(r.DocPr.Name)
 		case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-		default:
+		case r.Graphic.GraphicData.Pic.BlipFill != nil:
 			sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 		}
 		sb.WriteString("](")
@@ -246,9 +249,11 @@ func (r *WPInline) String() string {
 			tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			if err != nil {
 				sb.WriteString(err.Error())
-			} else {
-				h := md5.Sum(r.file.Media(tgt[6:]).Data)
+			} else if m := r.file.embeddedMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed); m != nil {
+				h := md5.Sum(m.Data)
 				sb.WriteString(hex.EncodeToString(h[:]))
+			} else { // a linked picture or a broken target
+				sb.WriteString(tgt)
 			}
 		}
 		sb.WriteByte(')')
@@ -1371,7 +1376,7 @@ func (r *WPAnchor) String() string {
 				sb.WriteString(r.DocPr.Name)
 			case r.Graphic.GraphicData.Pic.NonVisualPicProperties != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.NonVisualPicProperties.NonVisualDrawingProperties.Name)
-			default:
+			case r.Graphic.GraphicData.Pic.BlipFill != nil:
 				sb.WriteString(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 			}
 			sb.WriteString("](")
@@ -1379,9 +1384,11 @@ func (r *WPAnchor) String() string {
 				tgt, err := r.file.ReferTarget(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed)
 				if err != nil {
 					sb.WriteString(err.Error())
-				} else {
-					h := md5.Sum(r.file.Media(tgt[6:]).Data)
+				} else if m := r.file.embeddedMedia(r.Graphic.GraphicData.Pic.BlipFill.Blip.Embed); m != nil {
+					h := md5.Sum(m.Data)
 					sb.WriteString(hex.EncodeToString(h[:]))
+				} else { // a linked picture or a broken target
+					sb.WriteString(tgt)
 				}
 			}
 			sb.WriteByte(')')
-- 
2.43.0


From 39949c28747b5f26d0b01fe91318a9d1dc7579b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:00 +0000
Subject: [PATCH 19/46] fix: attach what the builders create and links contain
 to their document

A drawing added to a document could not be rendered as text or copied to
another document: both dereferenced the missing document.
---
 apidrawing.go | 16 ++++++++++++++--
 apilink.go    |  1 +
 apipara.go    |  1 +
 apishape.go   | 18 ++++++++++++++++--
 apitable.go   |  4 ++++
 apitext.go    |  2 ++
 structpara.go |  1 +
 7 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/apidrawing.go b/apidrawing.go
index e2e7c61..6e494df 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -48,7 +48,10 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
+
 			// AnchorID: fmt.Sprintf("%08X", rand.Uint32()),
 			// EditID:   fmt.Sprintf("%08X", rand.Uint32()),
 
@@ -68,9 +71,11 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 				},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_PICTURE,
+					file: p.file,
+					URI:  XMLNS_PICTURE,
 					Pic: &Picture{
 						XMLPIC: XMLNS_DRAWINGML_PICTURE,
 						NonVisualPicProperties: &PICNonVisualPicProperties{
@@ -106,6 +111,7 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run, nil
@@ -151,7 +157,10 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 		w = A4_EMU_MAX_WIDTH / 2
 	}
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file: p.file,
+
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
@@ -180,9 +189,11 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 				},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_PICTURE,
+					file: p.file,
+					URI:  XMLNS_PICTURE,
 					Pic: &Picture{
 						XMLPIC: XMLNS_DRAWINGML_PICTURE,
 						NonVisualPicProperties: &PICNonVisualPicProperties{
@@ -218,6 +229,7 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run, nil
diff --git a/apilink.go b/apilink.go
index 7ab24ee..b857d4a 100644
--- a/apilink.go
+++ b/apilink.go
@@ -37,6 +37,7 @@ func (p *Paragraph) AddLink(text string, link string) *Hyperlink {
 				},
 			},
 			InstrText: text,
+			file:      p.file,
 		},
 	}
 
diff --git a/apipara.go b/apipara.go
index ed146ba..4097fcb 100644
--- a/apipara.go
+++ b/apipara.go
@@ -65,6 +65,7 @@ func (p *Paragraph) AddPageBreaks() *Run {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run
diff --git a/apishape.go b/apishape.go
index 4ca918a..4159870 100644
--- a/apishape.go
+++ b/apishape.go
@@ -30,7 +30,10 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Inline: &WPInline{
+			file: p.file,
+
 			Extent: &WPExtent{
 				CX: w,
 				CY: h,
@@ -44,10 +47,13 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 				Locks: AGraphicFrameLocks{XMLA: XMLNS_DRAWINGML_MAIN},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_WPS,
+					file: p.file,
+					URI:  XMLNS_WPS,
 					Shape: &WordprocessingShape{
+						file: p.file,
 						CNvCnPr: &WPSCNvCnPr{
 							ConnShapeLocks: &struct{}{},
 						},
@@ -77,6 +83,7 @@ func (p *Paragraph) AddInlineShape(w, h int64, name, bwMode, prst string, ln *AL
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run
@@ -87,7 +94,10 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := strconv.Itoa(int(p.file.IncreaseID(name)))
 	d := &Drawing{
+		file: p.file,
 		Anchor: &WPAnchor{
+			file: p.file,
+
 			LayoutInCell: 1,
 			AllowOverlap: 1,
 
@@ -113,10 +123,13 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 				Locks: AGraphicFrameLocks{XMLA: XMLNS_DRAWINGML_MAIN},
 			},
 			Graphic: &AGraphic{
+				file: p.file,
 				XMLA: XMLNS_DRAWINGML_MAIN,
 				GraphicData: &AGraphicData{
-					URI: XMLNS_WPS,
+					file: p.file,
+					URI:  XMLNS_WPS,
 					Shape: &WordprocessingShape{
+						file: p.file,
 						CNvCnPr: &WPSCNvCnPr{
 							ConnShapeLocks: &struct{}{},
 						},
@@ -146,6 +159,7 @@ func (p *Paragraph) AddAnchorShape(w, h int64, name, bwMode, prst string, ln *AL
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run
diff --git a/apitable.go b/apitable.go
index afe1ed1..5dc8be8 100644
--- a/apitable.go
+++ b/apitable.go
@@ -47,6 +47,7 @@ func (f *Docx) AddTable(
 		trs[i] = &WTableRow{
 			TableRowProperties: &WTableRowProperties{},
 			TableCells:         cells,
+			file:               f,
 		}
 	}
 
@@ -78,6 +79,7 @@ func (f *Docx) AddTable(
 		},
 		TableGrid: &WTableGrid{},
 		TableRows: trs,
+		file:      f,
 	}
 	f.Document.Body.Items = append(f.Document.Body.Items, tbl)
 	return tbl
@@ -114,6 +116,7 @@ func (f *Docx) AddTableTwips(
 		trs[i] = &WTableRow{
 			TableRowProperties: &WTableRowProperties{},
 			TableCells:         cells,
+			file:               f,
 		}
 		if h > 0 {
 			trs[i].TableRowProperties.TableRowHeight = &WTableRowHeight{
@@ -152,6 +155,7 @@ func (f *Docx) AddTableTwips(
 			GridCols: grids,
 		},
 		TableRows: trs,
+		file:      f,
 	}
 	f.Document.Body.Items = append(f.Document.Body.Items, tbl)
 	return tbl
diff --git a/apitext.go b/apitext.go
index 6e3b879..9b7ca6d 100644
--- a/apitext.go
+++ b/apitext.go
@@ -30,6 +30,7 @@ func (p *Paragraph) AddTab() *Run {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 
 	p.Children = append(p.Children, run)
@@ -61,6 +62,7 @@ func (p *Paragraph) AddText(text string) *Run {
 	run := &Run{
 		RunProperties: &RunProperties{},
 		Children:      c,
+		file:          p.file,
 	}
 	p.Children = append(p.Children, run)
 	return run
diff --git a/structpara.go b/structpara.go
index b1d4f45..18d54c9 100644
--- a/structpara.go
+++ b/structpara.go
@@ -288,6 +288,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 			switch tt.Name.Local {
 			case "hyperlink":
 				var value Hyperlink
+				value.Run.file = p.file
 				err = d.DecodeElement(&value, &tt)
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
-- 
2.43.0


From 2d80a15b833a8cd3ef48c760456339e1fcda74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:29 +0000
Subject: [PATCH 20/46] fix: formatting a run, table, row or cell that was read
 without properties

The setters dereferenced the missing properties.
---
 apirun.go   | 18 ++++++++++++++++++
 apitable.go |  9 +++++++++
 2 files changed, 27 insertions(+)

diff --git a/apirun.go b/apirun.go
index f5d2b83..8dcae5c 100644
--- a/apirun.go
+++ b/apirun.go
@@ -20,8 +20,16 @@
 
 package docx
 
+// needProperties adds empty properties to a run that has none, like one that was read
+func (r *Run) needProperties() {
+	if r.RunProperties == nil {
+		r.RunProperties = &RunProperties{}
+	}
+}
+
 // Color allows to set run color
 func (r *Run) Color(color string) *Run {
+	r.needProperties()
 	r.RunProperties.Color = &Color{
 		Val: color,
 	}
@@ -30,6 +38,7 @@ func (r *Run) Color(color string) *Run {
 
 // Size allows to set run size
 func (r *Run) Size(size string) *Run {
+	r.needProperties()
 	r.RunProperties.Size = &Size{
 		Val: size,
 	}
@@ -38,6 +47,7 @@ func (r *Run) Size(size string) *Run {
 
 // SizeCs allows to set run sizecs
 func (r *Run) SizeCs(size string) *Run {
+	r.needProperties()
 	r.RunProperties.SizeCs = &SizeCs{
 		Val: size,
 	}
@@ -46,6 +56,7 @@ func (r *Run) SizeCs(size string) *Run {
 
 // Shade allows to set run shade
 func (r *Run) Shade(val, color, fill string) *Run {
+	r.needProperties()
 	r.RunProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
@@ -56,6 +67,7 @@ func (r *Run) Shade(val, color, fill string) *Run {
 
 // Spacing allows to set run spacing
 func (r *Run) Spacing(line int) *Run {
+	r.needProperties()
 	r.RunProperties.Spacing = &Spacing{
 		Line: line,
 	}
@@ -64,12 +76,14 @@ func (r *Run) Spacing(line int) *Run {
 
 // Bold ...
 func (r *Run) Bold() *Run {
+	r.needProperties()
 	r.RunProperties.Bold = &Bold{}
 	return r
 }
 
 // Italic ...
 func (r *Run) Italic() *Run {
+	r.needProperties()
 	r.RunProperties.Italic = &Italic{}
 	return r
 }
@@ -89,12 +103,14 @@ func (r *Run) Italic() *Run {
 //	dashLong: Specifies a long dash underline.
 //	wavyDouble: Specifies a double wavy underline.
 func (r *Run) Underline(val string) *Run {
+	r.needProperties()
 	r.RunProperties.Underline = &Underline{Val: val}
 	return r
 }
 
 // Highlight ...
 func (r *Run) Highlight(val string) *Run {
+	r.needProperties()
 	r.RunProperties.Highlight = &Highlight{Val: val}
 	return r
 }
@@ -105,6 +121,7 @@ func (r *Run) Strike(val bool) *Run {
 	if val {
 		trueFalseStr = "true"
 	}
+	r.needProperties()
 	r.RunProperties.Strike = &Strike{Val: trueFalseStr}
 	return r
 }
@@ -117,6 +134,7 @@ func (r *Run) AddTab() *Run {
 
 // Font sets the font of the run
 func (r *Run) Font(ascii, eastAsia, hansi, hint string) *Run {
+	r.needProperties()
 	r.RunProperties.Fonts = &RunFonts{
 		ASCII:    ascii,
 		EastAsia: eastAsia,
diff --git a/apitable.go b/apitable.go
index 5dc8be8..6842a8b 100644
--- a/apitable.go
+++ b/apitable.go
@@ -170,6 +170,9 @@ func (f *Docx) AddTableTwips(
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (t *Table) Justification(val string) *Table {
+	if t.TableProperties == nil {
+		t.TableProperties = &WTableProperties{}
+	}
 	if t.TableProperties.Justification == nil {
 		t.TableProperties.Justification = &Justification{Val: val}
 		return t
@@ -187,6 +190,9 @@ func (t *Table) Justification(val string) *Table {
 //		both：两端对齐。
 //		distribute：分散对齐。
 func (w *WTableRow) Justification(val string) *WTableRow {
+	if w.TableRowProperties == nil {
+		w.TableRowProperties = &WTableRowProperties{}
+	}
 	if w.TableRowProperties.Justification == nil {
 		w.TableRowProperties.Justification = &Justification{Val: val}
 		return w
@@ -197,6 +203,9 @@ func (w *WTableRow) Justification(val string) *WTableRow {
 
 // Shade allows to set cell's shade
 func (c *WTableCell) Shade(val, color, fill string) *WTableCell {
+	if c.TableCellProperties == nil {
+		c.TableCellProperties = &WTableCellProperties{}
+	}
 	c.TableCellProperties.Shade = &Shade{
 		Val:   val,
 		Color: color,
-- 
2.43.0


From cea69a979adf0ddc6e560bc721f8b495a2f79587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:31 +0000
Subject: [PATCH 21/46] fix: an image that claims to have no width is an error

The division by its width panicked.
---
 apidrawing.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apidrawing.go b/apidrawing.go
index 6e494df..a39b418 100644
--- a/apidrawing.go
+++ b/apidrawing.go
@@ -22,6 +22,7 @@ package docx
 
 import (
 	"bytes"
+	"errors"
 	"os"
 	"strconv"
 	"sync/atomic"
@@ -35,6 +36,9 @@ func (p *Paragraph) AddInlineDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errors.New("invalid image size")
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
@@ -144,6 +148,9 @@ func (p *Paragraph) AddAnchorDrawing(pic []byte) (*Run, error) {
 	if err != nil {
 		return nil, err
 	}
+	if sz.Width <= 0 || sz.Height <= 0 {
+		return nil, errors.New("invalid image size")
+	}
 	idn := int(atomic.AddUintptr(&p.file.docID, 1))
 	id := int(p.file.IncreaseID("图片"))
 	ids := strconv.Itoa(id)
-- 
2.43.0


From e9c35b25c8feceff8509c5636a6e6402a4a929c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 22/46] fix: MergeSamePropRunsOf ignores names that are no
 properties

Asking reflect about a field that does not exist panicked.
---
 structtext.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structtext.go b/structtext.go
index 74b9bd6..af42992 100644
--- a/structtext.go
+++ b/structtext.go
@@ -218,6 +218,9 @@ func MergeSamePropRunsOf(name ...string) RunMergeRule {
 		for _, n := range name {
 			x1 := rr1.FieldByName(n)
 			x2 := rr2.FieldByName(n)
+			if n == "XMLName" || !x1.IsValid() || !x2.IsValid() { // not a property
+				continue
+			}
 			if x1.IsZero() && x2.IsZero() {
 				continue
 			}
-- 
2.43.0


From b479dfadca8cf08228123d157033c4a9b10f81d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:59 +0000
Subject: [PATCH 23/46] fix: links to bookmarks keep their anchor

The anchor was stored as the relationship ID, so that it was saved as a
reference to a relationship that does not exist, and lost by copying.
---
 structdoc.go  | 16 ++++++++++------
 structlink.go |  3 ++-
 structpara.go | 14 +++++---------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/structdoc.go b/structdoc.go
index 4265fa4..5b42ee8 100644
--- a/structdoc.go
+++ b/structdoc.go
@@ -315,14 +315,18 @@ func (p *Paragraph) copymedia(to *Docx) (np Paragraph) {
 			continue
 		}
 		if h, ok := pc.(*Hyperlink); ok {
-			tgt, err := p.file.ReferTarget(h.ID)
-			if err != nil {
-				continue
+			rid := ""
+			if h.ID != "" || h.Anchor == "" {
+				tgt, err := p.file.ReferTarget(h.ID)
+				if err != nil {
+					continue
+				}
+				rid = to.addLinkRelation(tgt)
 			}
-			rid := to.addLinkRelation(tgt)
 			np.Children = append(np.Children, &Hyperlink{
-				ID:  rid,
-				Run: *h.Run.copymedia(to),
+				ID:     rid,
+				Anchor: h.Anchor,
+				Run:    *h.Run.copymedia(to),
 			})
 			continue
 		}
diff --git a/structlink.go b/structlink.go
index 3132b7d..827101a 100644
--- a/structlink.go
+++ b/structlink.go
@@ -29,7 +29,8 @@ import (
 // Hyperlink element contains links
 type Hyperlink struct {
 	XMLName xml.Name `xml:"w:hyperlink,omitempty"`
-	ID      string   `xml:"r:id,attr"`
+	ID      string   `xml:"r:id,attr,omitempty"`
+	Anchor  string   `xml:"w:anchor,attr,omitempty"` // Anchor is a bookmark in the target or in this document
 	Run     Run
 }
 
diff --git a/structpara.go b/structpara.go
index 18d54c9..1ca83dd 100644
--- a/structpara.go
+++ b/structpara.go
@@ -225,7 +225,9 @@ func (p *Paragraph) String() string {
 			sb.WriteString("[")
 			sb.WriteString(text)
 			sb.WriteString("](")
-			if err != nil {
+			if id == "" {
+				sb.WriteString(o.Anchor)
+			} else if err != nil {
 				sb.WriteString(id)
 			} else {
 				sb.WriteString(link)
@@ -293,14 +295,8 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				id := getAtt(tt.Attr, "id")
-				anchor := getAtt(tt.Attr, "anchor")
-				if id != "" {
-					value.ID = id
-				}
-				if anchor != "" {
-					value.ID = anchor
-				}
+				value.ID = getAtt(tt.Attr, "id")
+				value.Anchor = getAtt(tt.Attr, "anchor")
 				elem = &value
 			case "r":
 				var value Run
-- 
2.43.0


From 2ef18b0852ba35bfacb80706e0b9a5ab5a9aaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 24/46] fix: the text of a link that was read shows when
 rendering a paragraph

Only the instruction text was shown, which links in files do not have.
---
 structpara.go | 47 ++++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/structpara.go b/structpara.go
index 1ca83dd..02f2022 100644
--- a/structpara.go
+++ b/structpara.go
@@ -220,10 +220,10 @@ func (p *Paragraph) String() string {
 		switch o := c.(type) {
 		case *Hyperlink:
 			id := o.ID
-			text := o.Run.InstrText
 			link, err := p.file.ReferTarget(id)
 			sb.WriteString("[")
-			sb.WriteString(text)
+			sb.WriteString(o.Run.InstrText)
+			o.Run.writeText(&sb)
 			sb.WriteString("](")
 			if id == "" {
 				sb.WriteString(o.Anchor)
@@ -234,25 +234,7 @@ func (p *Paragraph) String() string {
 			}
 			sb.WriteByte(')')
 		case *Run:
-			for _, c := range o.Children {
-				switch x := c.(type) {
-				case *Text:
-					sb.WriteString(x.Text)
-				case *Tab:
-					sb.WriteByte('\t')
-				case *BarterRabbet:
-					sb.WriteByte('\n')
-				case *Drawing:
-					if x.Inline != nil {
-						sb.WriteString(x.Inline.String())
-						continue
-					}
-					if x.Anchor != nil {
-						sb.WriteString(x.Anchor.String())
-						continue
-					}
-				}
-			}
+			o.writeText(&sb)
 		default:
 			continue
 		}
@@ -260,6 +242,29 @@ func (p *Paragraph) String() string {
 	return sb.String()
 }
 
+// writeText renders the children of the run
+func (r *Run) writeText(sb *strings.Builder) {
+	for _, c := range r.Children {
+		switch x := c.(type) {
+		case *Text:
+			sb.WriteString(x.Text)
+		case *Tab:
+			sb.WriteByte('\t')
+		case *BarterRabbet:
+			sb.WriteByte('\n')
+		case *Drawing:
+			if x.Inline != nil {
+				sb.WriteString(x.Inline.String())
+				continue
+			}
+			if x.Anchor != nil {
+				sb.WriteString(x.Anchor.String())
+				continue
+			}
+		}
+	}
+}
+
 // UnmarshalXML ...
 func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 	/*for _, attr := range start.Attr {
-- 
2.43.0


From a5ac3671b72db8174ee55ffbc4cf2f3320981ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 25/46] fix: the text of a link that was read shows when
 rendering a paragraph

Only the instruction text was shown, which links in files do not have.
---
 structpara.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/structpara.go b/structpara.go
index 02f2022..5a4d446 100644
--- a/structpara.go
+++ b/structpara.go
@@ -225,9 +225,7 @@ func (p *Paragraph) String() string {
 			sb.WriteString(o.Run.InstrText)
 			o.Run.writeText(&sb)
 			sb.WriteString("](")
-			if id == "" {
-				sb.WriteString(o.Anchor)
-			} else if err != nil {
+			if err != nil {
 				sb.WriteString(id)
 			} else {
 				sb.WriteString(link)
@@ -300,8 +298,14 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
-				value.ID = getAtt(tt.Attr, "id")
-				value.Anchor = getAtt(tt.Attr, "anchor")
+				id := getAtt(tt.Attr, "id")
+				anchor := getAtt(tt.Attr, "anchor")
+				if id != "" {
+					value.ID = id
+				}
+				if anchor != "" {
+					value.ID = anchor
+				}
 				elem = &value
 			case "r":
 				var value Run
-- 
2.43.0


From f6bb649a7cbc2698bb974447d1b3f5d33e460de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:42 +0000
Subject: [PATCH 26/46] fix: a link with a target and an anchor keeps its
 target

---
 structpara.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structpara.go b/structpara.go
index 5a4d446..d2f3f8b 100644
--- a/structpara.go
+++ b/structpara.go
@@ -303,7 +303,7 @@ func (p *Paragraph) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if id != "" {
 					value.ID = id
 				}
-				if anchor != "" {
+				if id == "" && anchor != "" {
 					value.ID = anchor
 				}
 				elem = &value
-- 
2.43.0


From 6888866b453e437a141b6ac8474bfcb21674e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:05 +0000
Subject: [PATCH 27/46] fix: building a table does not fill in the caller's
 border colors

---
 apitable.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apitable.go b/apitable.go
index 6842a8b..4f3f36b 100644
--- a/apitable.go
+++ b/apitable.go
@@ -53,6 +53,9 @@ func (f *Docx) AddTable(
 
 	if borderColors == nil {
 		borderColors = new(APITableBorderColors)
+	} else {
+		bc := *borderColors // keep the caller's value as it is
+		borderColors = &bc
 	}
 	borderColors.applyDefault()
 
@@ -127,6 +130,9 @@ func (f *Docx) AddTableTwips(
 
 	if borderColors == nil {
 		borderColors = new(APITableBorderColors)
+	} else {
+		bc := *borderColors // keep the caller's value as it is
+		borderColors = &bc
 	}
 	borderColors.applyDefault()
 
-- 
2.43.0


From d25fe1cce5fd5c4d000ad0658f3c221a9bda1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 28/46] fix: declare the content types of gif and jpg images in
 the default template

---
 xml/default/[Content_Types].xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xml/default/[Content_Types].xml b/xml/default/[Content_Types].xml
index 3ea9380..3de956b 100644
--- a/xml/default/[Content_Types].xml
+++ b/xml/default/[Content_Types].xml
@@ -1,6 +1,8 @@
 <?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
     <Default Extension="jpeg" ContentType="image/jpeg"/>
+    <Default Extension="jpg" ContentType="image/jpeg"/>
+    <Default Extension="gif" ContentType="image/gif"/>
     <Default Extension="png" ContentType="image/png"/>
     <Default Extension="webp" ContentType="image/webp"/>
     <Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-- 
2.43.0


From 5df6fcf0edfa2e27cbb96d0127d79adf0ec490ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:14 +0000
Subject: [PATCH 29/46] fix: the numbering of a paragraph is read back

---
 structpara.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structpara.go b/structpara.go
index d2f3f8b..fc046b7 100644
--- a/structpara.go
+++ b/structpara.go
@@ -80,6 +80,13 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 					return err
 				}
 				p.Ind = &value
+			case "numPr":
+				var value NumProperties
+				err = d.DecodeElement(&value, &tt)
+				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
+					return err
+				}
+				p.NumProperties = &value
 			case "jc":
 				err = d.Skip() // nothing inside is read
 				if err != nil {
-- 
2.43.0


From f2d4b72dfab26d7cf4a5b6a476857834c7a84612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 30/46] fix: documents loaded from the same lists do not
 overwrite each other

---
 docx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx.go b/docx.go
index 25c4c45..86e45c2 100644
--- a/docx.go
+++ b/docx.go
@@ -113,7 +113,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 			XMLWPS: XMLNS_WPS,
 			XMLWPC: XMLNS_WPC,
 			XMLWPG: XMLNS_WPG,
-			Body:   Body{Items: items},
+			Body:   Body{Items: items[:len(items):len(items)]}, // appending must not write into the caller's list
 		},
 		docRelation: Relationships{
 			Xmlns: XMLNS_REL,
@@ -135,7 +135,7 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 				},
 			},
 		},
-		media:        media,
+		media:        media[:len(media):len(media)],
 		mediaNameIdx: make(map[string]int, 64),
 		rID:          3,
 		slowIDs:      make(map[string]uintptr, 64),
-- 
2.43.0


From b09be4a9c53456e998bd6087bff877da0b735efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:41 +0000
Subject: [PATCH 31/46] fix: declare the namespaces of packages that lack a
 document or relationships part

A document without word/_rels/document.xml.rels was saved with
<Relationships xmlns="">, one without word/document.xml with xmlns:w="".
---
 unpack.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/unpack.go b/unpack.go
index ec3865f..b46dc9a 100644
--- a/unpack.go
+++ b/unpack.go
@@ -43,6 +43,18 @@ func unpack(zipReader *zip.Reader) (docx *Docx, err error) {
 	docx.slowIDs = make(map[string]uintptr, 64)
 	docx.tmplfs = zipReader
 	docx.tmpfslst = make([]string, 0, 64)
+	// a package may lack the parts that are read below
+	docx.docRelation.Xmlns = XMLNS_REL
+	docx.Document.XMLW = XMLNS_W
+	docx.Document.XMLR = XMLNS_R
+	docx.Document.XMLWP = XMLNS_WP
+	// docx.Document.XMLMC = XMLNS_MC
+	// docx.Document.XMLO = XMLNS_O
+	// docx.Document.XMLV = XMLNS_V
+	docx.Document.XMLWPS = XMLNS_WPS
+	docx.Document.XMLWPC = XMLNS_WPC
+	docx.Document.XMLWPG = XMLNS_WPG
+	// docx.Document.XMLWP14 = XMLNS_WP14
 	for _, f := range zipReader.File {
 		if f.FileInfo().IsDir() { // directories have no content to keep
 			continue
@@ -84,16 +96,6 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.Document.XMLW = XMLNS_W
-	f.Document.XMLR = XMLNS_R
-	f.Document.XMLWP = XMLNS_WP
-	// f.Document.XMLMC = XMLNS_MC
-	// f.Document.XMLO = XMLNS_O
-	// f.Document.XMLV = XMLNS_V
-	f.Document.XMLWPS = XMLNS_WPS
-	f.Document.XMLWPC = XMLNS_WPC
-	f.Document.XMLWPG = XMLNS_WPG
-	// f.Document.XMLWP14 = XMLNS_WP14
 	f.Document.XMLName.Space = XMLNS_W
 	f.Document.XMLName.Local = "document"
 
@@ -112,7 +114,6 @@ func (f *Docx) parseDocRelation(file *zip.File) error {
 	}
 	defer zf.Close()
 
-	f.docRelation.Xmlns = XMLNS_REL
 	err = xml.NewDecoder(zf).Decode(&f.docRelation)
 	if err != nil {
 		return err
-- 
2.43.0


From 242928d76652e3056a4b41347078686ff799c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:45 +0000
Subject: [PATCH 32/46] fix: write property elements in the order of the schema

---
 structnum.go   |  2 +-
 structpara.go  | 16 ++++++++--------
 structtable.go |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/structnum.go b/structnum.go
index d9cc16e..8ea4c85 100644
--- a/structnum.go
+++ b/structnum.go
@@ -25,8 +25,8 @@ import (
 // NumProperties show the number properties
 type NumProperties struct {
 	XMLName xml.Name `xml:"w:numPr,omitempty"`
-	NumID   *NumID
 	Ilvl    *Ilevel
+	NumID   *NumID
 }
 
 // NumID show the number id
diff --git a/structpara.go b/structpara.go
index fc046b7..34b3610 100644
--- a/structpara.go
+++ b/structpara.go
@@ -30,19 +30,19 @@ import (
 // ParagraphProperties <w:pPr>
 type ParagraphProperties struct {
 	XMLName        xml.Name `xml:"w:pPr,omitempty"`
+	Style          *Style
+	NumProperties  *NumProperties
+	Shade          *Shade
 	Tabs           *Tabs
+	Kinsoku        *Kinsoku
+	OverflowPunct  *OverflowPunct
+	AdjustRightInd *AdjustRightInd
+	SnapToGrid     *SnapToGrid
 	Spacing        *Spacing
-	NumProperties  *NumProperties
 	Ind            *Ind
 	Justification  *Justification
-	Shade          *Shade
-	Kern           *Kern
-	Style          *Style
 	TextAlignment  *TextAlignment
-	AdjustRightInd *AdjustRightInd
-	SnapToGrid     *SnapToGrid
-	Kinsoku        *Kinsoku
-	OverflowPunct  *OverflowPunct
+	Kern           *Kern
 
 	RunProperties *RunProperties
 }
diff --git a/structtable.go b/structtable.go
index 5993347..8e72c68 100644
--- a/structtable.go
+++ b/structtable.go
@@ -107,8 +107,8 @@ func (t *Table) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 // WTableProperties is an element that represents the properties of a table in Word document.
 type WTableProperties struct {
 	XMLName       xml.Name `xml:"w:tblPr,omitempty"`
-	Position      *WTablePositioningProperties
 	Style         *WTableStyle
+	Position      *WTablePositioningProperties
 	Width         *WTableWidth
 	Justification *Justification `xml:"w:jc,omitempty"`
 	TableBorders  *WTableBorders `xml:"w:tblBorders"`
@@ -588,8 +588,8 @@ func (c *WTableCell) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 type WTableCellProperties struct {
 	XMLName        xml.Name `xml:"w:tcPr,omitempty"`
 	TableCellWidth *WTableCellWidth
-	VMerge         *WvMerge
 	GridSpan       *WGridSpan
+	VMerge         *WvMerge
 	TableBorders   *WTableBorders `xml:"w:tcBorders"`
 	Shade          *Shade
 	VAlign         *WVerticalAlignment
-- 
2.43.0


From 1812cdea97a3b0cfbd1abb81a2b49ea411c54039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:29 +0000
Subject: [PATCH 33/46] fix: bold, italic and strike keep the position of their
 switch

---
 structeffects.go | 4 +++-
 structrun.go     | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index b19ef4e..2612839 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -60,11 +60,13 @@ type SizeCs struct {
 // Bold ...
 type Bold struct {
 	XMLName xml.Name `xml:"w:b,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Italic ...
 type Italic struct {
 	XMLName xml.Name `xml:"w:i,omitempty"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Underline ...
@@ -113,7 +115,7 @@ type VertAlign struct {
 // Strike ...
 type Strike struct {
 	XMLName xml.Name `xml:"w:strike,omitempty"`
-	Val     string   `xml:"w:val,attr"`
+	Val     string   `xml:"w:val,attr,omitempty"`
 }
 
 // Shade is an element that represents a shading pattern applied to a document element.
diff --git a/structrun.go b/structrun.go
index d08f83a..a6690b5 100644
--- a/structrun.go
+++ b/structrun.go
@@ -265,7 +265,7 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil {
 					return err
 				}
-				r.Bold = &Bold{}
+				r.Bold = &Bold{Val: getAtt(tt.Attr, "val")}
 			case "iCs":
 				err = d.Skip() // nothing inside is read
 				if err != nil {
@@ -277,7 +277,7 @@ func (r *RunProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) error {
 				if err != nil {
 					return err
 				}
-				r.Italic = &Italic{}
+				r.Italic = &Italic{Val: getAtt(tt.Attr, "val")}
 			case "u":
 				err = d.Skip() // nothing inside is read
 				if err != nil {
-- 
2.43.0


From a40f6ad08124d355dac221b2c1b0fbccea85fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:30 +0000
Subject: [PATCH 34/46] fix: write the name drawings must have even if it is
 empty

---
 structdrawing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structdrawing.go b/structdrawing.go
index 034ed88..b75a5e5 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -405,7 +405,7 @@ func (r *WPEffectExtent) UnmarshalXML(d *xml.Decoder, start xml.StartElement) er
 type WPDocPr struct {
 	XMLName xml.Name `xml:"wp:docPr,omitempty"`
 	ID      int      `xml:"id,attr"`
-	Name    string   `xml:"name,attr,omitempty"`
+	Name    string   `xml:"name,attr"`
 }
 
 // UnmarshalXML ...
-- 
2.43.0


From 065dd6248fd62b4415237b5050af070e4b959c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:51 +0000
Subject: [PATCH 35/46] fix: keep paragraph switches that are on without saying
 so

---
 structpara.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/structpara.go b/structpara.go
index 34b3610..8bf27fd 100644
--- a/structpara.go
+++ b/structpara.go
@@ -142,7 +142,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value AdjustRightInd
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // on unless said otherwise
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -157,7 +157,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value SnapToGrid
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // on unless said otherwise
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -172,7 +172,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value Kinsoku
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // on unless said otherwise
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
@@ -187,7 +187,7 @@ func (p *ParagraphProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement) e
 				var value OverflowPunct
 				v := getAtt(tt.Attr, "val")
 				if v == "" {
-					continue
+					v = "1" // on unless said otherwise
 				}
 				value.Val, err = GetInt(v)
 				if err != nil {
-- 
2.43.0


From 051fcc8e9b3849bbe634c3664b8e05f42bb097f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:25 +0000
Subject: [PATCH 36/46] fix: do not write optional attributes with an empty
 value

---
 structeffects.go | 2 +-
 structsect.go    | 2 +-
 structshape.go   | 8 ++++----
 structtable.go   | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/structeffects.go b/structeffects.go
index 2612839..3136d1e 100644
--- a/structeffects.go
+++ b/structeffects.go
@@ -177,7 +177,7 @@ type OverflowPunct struct {
 
 // ShapeProperties is a container element that represents the visual properties of a shape.
 type ShapeProperties struct {
-	BWMode string `xml:"bwMode,attr"`
+	BWMode string `xml:"bwMode,attr,omitempty"`
 
 	Xfrm      AXfrm
 	PrstGeom  APrstGeom
diff --git a/structsect.go b/structsect.go
index d8eb6a9..36f98f2 100644
--- a/structsect.go
+++ b/structsect.go
@@ -57,7 +57,7 @@ type Cols struct {
 
 // DocGrid show the document grid
 type DocGrid struct {
-	Type      string `xml:"w:type,attr"`
+	Type      string `xml:"w:type,attr,omitempty"`
 	LinePitch int    `xml:"w:linePitch,attr"`
 }
 
diff --git a/structshape.go b/structshape.go
index b8925ba..f4318ab 100644
--- a/structshape.go
+++ b/structshape.go
@@ -298,8 +298,8 @@ type ATile struct {
 	TY      int64    `xml:"ty,attr"`
 	SX      int64    `xml:"sx,attr"`
 	SY      int64    `xml:"sy,attr"`
-	Flip    string   `xml:"flip,attr"`
-	Algn    string   `xml:"algn,attr"`
+	Flip    string   `xml:"flip,attr,omitempty"`
+	Algn    string   `xml:"algn,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -487,13 +487,13 @@ type ASrgbClr struct {
 // APrstDash ...
 type APrstDash struct {
 	XMLName xml.Name `xml:"a:prstDash,omitempty"`
-	Val     string   `xml:"val,attr"`
+	Val     string   `xml:"val,attr,omitempty"`
 }
 
 // AMiter ...
 type AMiter struct {
 	XMLName xml.Name `xml:"a:miter,omitempty"`
-	Limit   string   `xml:"lim,attr"`
+	Limit   string   `xml:"lim,attr,omitempty"`
 }
 
 // AHeadEnd ...
diff --git a/structtable.go b/structtable.go
index 8e72c68..5eef39d 100644
--- a/structtable.go
+++ b/structtable.go
@@ -265,7 +265,7 @@ func (t *WTableStyle) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 type WTableWidth struct {
 	XMLName xml.Name `xml:"w:tblW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // UnmarshalXML ...
@@ -294,7 +294,7 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 // WTableLook represents the look of a table in a Word document.
 type WTableLook struct {
 	XMLName  xml.Name `xml:"w:tblLook,omitempty"`
-	Val      string   `xml:"w:val,attr"`
+	Val      string   `xml:"w:val,attr,omitempty"`
 	FirstRow int      `xml:"w:firstRow,attr"`
 	LastRow  int      `xml:"w:lastRow,attr"`
 	FirstCol int      `xml:"w:firstColumn,attr"`
@@ -686,7 +686,7 @@ func (r *WTableCellProperties) UnmarshalXML(d *xml.Decoder, _ xml.StartElement)
 type WTableCellWidth struct {
 	XMLName xml.Name `xml:"w:tcW,omitempty"`
 	W       int64    `xml:"w:w,attr"`
-	Type    string   `xml:"w:type,attr"`
+	Type    string   `xml:"w:type,attr,omitempty"`
 }
 
 // WvMerge element is used to specify whether a table cell
-- 
2.43.0


From 2a8f4d6918190fbcdc9e0b8ab2bf567b1bbaada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:27 +0000
Subject: [PATCH 37/46] fix: the default border color is a color

---
 apitable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apitable.go b/apitable.go
index 4f3f36b..2d62913 100644
--- a/apitable.go
+++ b/apitable.go
@@ -235,7 +235,7 @@ func (tbc *APITableBorderColors) applyDefault() {
 
 	for i := 0; i < tbcR.NumField(); i++ {
 		if tbcR.Field(i).IsZero() {
-			tbcR.Field(i).SetString("#000000")
+			tbcR.Field(i).SetString("000000")
 		}
 	}
 }
-- 
2.43.0


From ef7593fa63467fc868a08ac720815eea994229d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:18 +0000
Subject: [PATCH 38/46] fix: do not contradict the table look a document gives
 in one value

---
 structtable.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/structtable.go b/structtable.go
index 5eef39d..1aef122 100644
--- a/structtable.go
+++ b/structtable.go
@@ -295,12 +295,12 @@ func (t *WTableWidth) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err
 type WTableLook struct {
 	XMLName  xml.Name `xml:"w:tblLook,omitempty"`
 	Val      string   `xml:"w:val,attr,omitempty"`
-	FirstRow int      `xml:"w:firstRow,attr"`
-	LastRow  int      `xml:"w:lastRow,attr"`
-	FirstCol int      `xml:"w:firstColumn,attr"`
-	LastCol  int      `xml:"w:lastColumn,attr"`
-	NoHBand  int      `xml:"w:noHBand,attr"`
-	NoVBand  int      `xml:"w:noVBand,attr"`
+	FirstRow int      `xml:"w:firstRow,attr,omitempty"`
+	LastRow  int      `xml:"w:lastRow,attr,omitempty"`
+	FirstCol int      `xml:"w:firstColumn,attr,omitempty"`
+	LastCol  int      `xml:"w:lastColumn,attr,omitempty"`
+	NoHBand  int      `xml:"w:noHBand,attr,omitempty"`
+	NoVBand  int      `xml:"w:noVBand,attr,omitempty"`
 }
 
 // UnmarshalXML ...
-- 
2.43.0


From 8efe1c8637b7dda417346f35d860e897953d6b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:17 +0000
Subject: [PATCH 39/46] fix: numbers a document does not give keep their
 meaning

---
 structsect.go  | 2 ++
 structshape.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/structsect.go b/structsect.go
index 36f98f2..5438b44 100644
--- a/structsect.go
+++ b/structsect.go
@@ -191,6 +191,8 @@ func (pgmar *PgMar) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (cols *Cols) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	var err error
 
+	cols.Space = 720 // unless said otherwise
+
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "space":
diff --git a/structshape.go b/structshape.go
index f4318ab..d0f0bff 100644
--- a/structshape.go
+++ b/structshape.go
@@ -304,6 +304,7 @@ type ATile struct {
 
 // UnmarshalXML ...
 func (t *ATile) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err error) {
+	t.SX, t.SY = 100000, 100000 // 100% unless said otherwise
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "tx":
@@ -651,6 +652,7 @@ type WPSBodyPr struct {
 
 // UnmarshalXML ...
 func (r *WPSBodyPr) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	r.LIns, r.TIns, r.RIns, r.BIns = 91440, 45720, 91440, 45720 // unless said otherwise
 	for _, attr := range start.Attr {
 		switch attr.Name.Local {
 		case "rot":
-- 
2.43.0


From b8a18fe4895f710109477a181ee5c3a1f2ec5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:14 +0000
Subject: [PATCH 40/46] fix: leave out geometries that are not there

---
 structdrawing.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structdrawing.go b/structdrawing.go
index b75a5e5..edc830b 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -1120,6 +1120,16 @@ type APrstGeom struct {
 	AvLst   *struct{} `xml:"a:avLst,omitempty"`
 }
 
+// MarshalXML leaves the element out when it has no geometry: an empty one is
+// not allowed, and the properties of a group do not have one
+func (p APrstGeom) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
+	if p.Prst == "" {
+		return nil
+	}
+	type geom APrstGeom // without this method
+	return e.EncodeElement(geom(p), start)
+}
+
 // UnmarshalXML ...
 func (a *APrstGeom) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	for _, attr := range start.Attr {
-- 
2.43.0


From b1293771f742e52f8c9fcd590575445b054e7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:11 +0000
Subject: [PATCH 41/46] fix: report how many bytes a save wrote

WriteTo is an io.WriterTo, which returns the number of bytes written, but
it always returned 0.
---
 docx.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/docx.go b/docx.go
index 86e45c2..b329eec 100644
--- a/docx.go
+++ b/docx.go
@@ -150,14 +150,29 @@ func LoadBodyItems(items []interface{}, media []Media) *Docx {
 
 // WriteTo allows to save a docx to a writer
 func (f *Docx) WriteTo(writer io.Writer) (_ int64, err error) {
-	zipWriter := zip.NewWriter(writer)
+	cw := &countWriter{w: writer}
+	zipWriter := zip.NewWriter(cw)
 
 	err = f.pack(zipWriter)
 	if err != nil {
 		_ = zipWriter.Close()
-		return
+		return cw.n, err
 	}
-	return 0, zipWriter.Close()
+	err = zipWriter.Close()
+	return cw.n, err
+}
+
+// countWriter counts the bytes that pass through it
+type countWriter struct {
+	w io.Writer
+	n int64
+}
+
+// Write ...
+func (c *countWriter) Write(p []byte) (n int, err error) {
+	n, err = c.w.Write(p)
+	c.n += int64(n)
+	return
 }
 
 // Read is a fake function and cannot be used
-- 
2.43.0


From 6b6c693c23287a5d216163f3554ef7e2b482cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:52 +0000
Subject: [PATCH 42/46] fix: give links a style that is one for characters

The style links refer to was that of table grids in the built-in template,
so they looked like any other text.
---
 apilink.go                  |  2 +-
 xml/default/word/styles.xml | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/apilink.go b/apilink.go
index b857d4a..f7a627a 100644
--- a/apilink.go
+++ b/apilink.go
@@ -22,7 +22,7 @@ package docx
 
 //nolint:revive,stylecheck
 const (
-	HYPERLINK_STYLE = "a3"
+	HYPERLINK_STYLE = "Hyperlink"
 )
 
 // AddLink adds an hyperlink to paragraph
diff --git a/xml/default/word/styles.xml b/xml/default/word/styles.xml
index 42a6f84..49ec0de 100644
--- a/xml/default/word/styles.xml
+++ b/xml/default/word/styles.xml
@@ -453,6 +453,16 @@
             </w:tblBorders>
         </w:tblPr>
     </w:style>
+    <w:style w:type="character" w:styleId="Hyperlink">
+        <w:name w:val="Hyperlink"/>
+        <w:basedOn w:val="a0"/>
+        <w:uiPriority w:val="99"/>
+        <w:unhideWhenUsed/>
+        <w:rPr>
+            <w:color w:val="0563C1" w:themeColor="hyperlink"/>
+            <w:u w:val="single"/>
+        </w:rPr>
+    </w:style>
     <w:style w:type="paragraph" w:styleId="a4">
         <w:name w:val="Normal (Web)"/>
         <w:basedOn w:val="a"/>
-- 
2.43.0


From 831936d1e3143813f7fe931a8da8b1b4b0fc576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:53 +0000
Subject: [PATCH 43/46] fix: number copied drawings anew in the document they
 are copied to

---
 structdrawing.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/structdrawing.go b/structdrawing.go
index edc830b..067d719 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -294,6 +294,13 @@ func (r *WPInline) String() string {
 func (r *WPInline) copymedia(to *Docx) *WPInline {
 	inln := *r
 	inln.file = to
+	// the number of the source may already be taken here
+	idn := int(atomic.AddUintptr(&to.docID, 1))
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = idn
+		inln.DocPr = &docpr
+	}
 	if r.Graphic == nil {
 		return &inln
 	}
@@ -315,7 +322,6 @@ func (r *WPInline) copymedia(to *Docx) *WPInline {
 			return nil
 		}
 		format := m.Name[strings.LastIndex(m.Name, ".")+1:]
-		idn := int(atomic.AddUintptr(&to.docID, 1))
 		id := int(to.IncreaseID("图片"))
 		ids := strconv.Itoa(id)
 		rid := to.addImage(format, m.Data)
@@ -1440,6 +1446,13 @@ func (r *WPAnchor) String() string {
 func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 	anch := *r
 	anch.file = to
+	// the number of the source may already be taken here
+	idn := int(atomic.AddUintptr(&to.docID, 1))
+	if r.DocPr != nil {
+		docpr := *r.DocPr
+		docpr.ID = idn
+		anch.DocPr = &docpr
+	}
 	if r.Graphic == nil {
 		return &anch
 	}
@@ -1461,7 +1474,6 @@ func (r *WPAnchor) copymedia(to *Docx) *WPAnchor {
 			return nil
 		}
 		format := m.Name[strings.LastIndex(m.Name, ".")+1:]
-		idn := int(atomic.AddUintptr(&to.docID, 1))
 		id := int(to.IncreaseID("图片"))
 		ids := strconv.Itoa(id)
 		rid := to.addImage(format, m.Data)
-- 
2.43.0


From 4aa926787fc3006cda15b1b2d1791b85ba6fc8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:46 +0000
Subject: [PATCH 44/46] fix: new drawings do not take the number of one that
 was read

---
 id.go            | 7 +++++++
 structdrawing.go | 2 ++
 unpack.go        | 3 +--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/id.go b/id.go
index 31b6157..51905bd 100644
--- a/id.go
+++ b/id.go
@@ -29,3 +29,10 @@ func (f *Docx) IncreaseID(name string) (n uintptr) {
 	f.slowIDsMu.Unlock()
 	return
 }
+
+// skipDocID keeps the numbers of new drawings apart from that of a drawing that was read
+func (f *Docx) skipDocID(id int) {
+	if f != nil && id > 0 && f.docID < uintptr(id) {
+		f.docID = uintptr(id)
+	}
+}
diff --git a/structdrawing.go b/structdrawing.go
index 067d719..d537b1c 100644
--- a/structdrawing.go
+++ b/structdrawing.go
@@ -201,6 +201,7 @@ func (r *WPInline) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.skipDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				var value WPCNvGraphicFramePr
 				err = d.DecodeElement(&value, &tt)
@@ -1356,6 +1357,7 @@ func (r *WPAnchor) UnmarshalXML(d *xml.Decoder, start xml.StartElement) (err err
 				if err != nil && !strings.HasPrefix(err.Error(), "expected") {
 					return err
 				}
+				r.file.skipDocID(r.DocPr.ID)
 			case "cNvGraphicFramePr":
 				r.CNvGraphicFramePr = new(WPCNvGraphicFramePr)
 				err = d.DecodeElement(r.CNvGraphicFramePr, &tt)
diff --git a/unpack.go b/unpack.go
index b46dc9a..0170cf8 100644
--- a/unpack.go
+++ b/unpack.go
@@ -100,8 +100,7 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.XMLName.Local = "document"
 
 	f.Document.Body.file = f
-	//TODO: find last docID
-	f.docID = 100000
+	f.docID = 100000 // raised to the highest number of the drawings that are read
 	err = xml.NewDecoder(zf).Decode(&f.Document)
 	return err
 }
-- 
2.43.0


From aa7f350cb69c7395e83e88a236021ee6541a3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:40 +0000
Subject: [PATCH 45/46] fix: keep the numbers of new drawings above those read
 from an earlier part

---
 unpack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.go b/unpack.go
index 0170cf8..f0400ea 100644
--- a/unpack.go
+++ b/unpack.go
@@ -100,7 +100,7 @@ func (f *Docx) parseDocument(file *zip.File) error {
 	f.Document.XMLName.Local = "document"
 
 	f.Document.Body.file = f
-	f.docID = 100000 // raised to the highest number of the drawings that are read
+	f.skipDocID(100000) // and that of every drawing that is read
 	err = xml.NewDecoder(zf).Decode(&f.Document)
 	return err
 }
-- 
2.43.0


From 04209156d42f863a11b8fc93c80a807dab7ae146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:40 +0000
Subject: [PATCH 46/46] fix: write the parts of a package in a fixed order

---
 pack.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pack.go b/pack.go
index b1d4b05..07ed3d5 100644
--- a/pack.go
+++ b/pack.go
@@ -26,6 +26,7 @@ import (
 	"encoding/xml"
 	"io"
 	"os"
+	"sort"
 )
 
 // pack receives a zip file writer (word documents are a zip with multiple xml inside)
@@ -61,7 +62,15 @@ func (f *Docx) pack(zipWriter *zip.Writer) (err error) {
 		files[m.String()] = bytes.NewReader(m.Data)
 	}
 
-	for path, r := range files {
+	// the same document gives the same bytes
+	paths := make([]string, 0, len(files))
+	for path := range files {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	for _, path := range paths {
+		r := files[path]
 		w, err := zipWriter.Create(path)
 		if err != nil {
 			return err
-- 
2.43.0

