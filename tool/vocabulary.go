package main

// vocabulary: the elements a document is made of as far as the library writes them, with the
// attributes (@) and children each has there, under the names and prefixes of ECMA-376. The names are
// those of the schema, not of the code.
var vocabulary = map[string]string{
	"Relationships":     "Relationship",
	"Relationship":      "@Id @Target @TargetMode @Type",
	"adjustRightInd":    "@w:val",
	"alphaModFix":       "@amt",
	"anchor":            "@allowOverlap @behindDoc @distB @distL @distR @distT @layoutInCell @locked @relativeHeight @simplePos a:graphic wp:cNvGraphicFramePr wp:docPr wp:effectExtent wp:extent wp:positionH wp:positionV wp:simplePos wp:wrapNone wp:wrapSquare",
	"b":                 "@w:val",
	"bg":                "a:noFill",
	"blip":              "@cstate @r:embed a:alphaModFix",
	"blipFill":          "@dpi @rotWithShape a:blip a:srcRect a:stretch a:tile",
	"body":              "w:p w:sectPr w:tbl",
	"bodyPr":            "@anchor @anchorCtr @bIns @lIns @rIns @rot @tIns @upright @vert @wrap a:noAutofit",
	"bottom":            "@w:color @w:space @w:sz @w:val",
	"br":                "@w:type",
	"cNvCnPr":           "a:cxnSpLocks",
	"cNvGraphicFramePr": "a:graphicFrameLocks",
	"cNvGrpSpPr":        "a:grpSpLocks",
	"cNvPicPr":          "a:picLocks",
	"cNvPr":             "@id @name",
	"cNvSpPr":           "@txBox a:spLocks",
	"chExt":             "@cx @cy",
	"chOff":             "@x @y",
	"color":             "@w:val",
	"cols":              "@w:space",
	"docGrid":           "@w:linePitch @w:type",
	"docPr":             "@id @name",
	"document":          "w:body",
	"drawing":           "wp:anchor wp:inline",
	"effectExtent":      "@b @l @r @t",
	"ext":               "@cx @cy",
	"extent":            "@cx @cy",
	"graphic":           "a:graphicData",
	"graphicData":       "@uri pic:pic wpc:wpc wpg:wgp wps:wsp",
	"graphicFrameLocks": "@noChangeAspect",
	"gridCol":           "@w:w",
	"gridSpan":          "@w:val",
	"grpSp":             "pic:pic wpc:wpc wpg:cNvGrpSpPr wpg:cNvPr wpg:grpSpPr wps:wsp",
	"grpSpPr":           "@bwMode a:blipFill a:ln a:noFill a:prstGeom a:solidFill a:xfrm",
	"headEnd":           "@len @type @w",
	"highlight":         "@w:val",
	"hyperlink":         "@r:id @w:anchor w:r",
	"i":                 "@w:val",
	"ilvl":              "@w:val",
	"ind":               "@w:firstLine @w:firstLineChars @w:hanging @w:hangingChars @w:left @w:leftChars",
	"inline":            "@distB @distL @distR @distT a:graphic wp:cNvGraphicFramePr wp:docPr wp:effectExtent wp:extent",
	"insideH":           "@w:color @w:space @w:sz @w:val",
	"insideV":           "@w:color @w:space @w:sz @w:val",
	"jc":                "@w:val",
	"kern":              "@w:val",
	"kinsoku":           "@w:val",
	"left":              "@w:color @w:space @w:sz @w:val",
	"ln":                "@algn @cap @cmpd @w a:headEnd a:miter a:noFill a:prstDash a:round a:solidFill a:tailEnd",
	"miter":             "@lim",
	"numId":             "@w:val",
	"numPr":             "w:ilvl w:numId",
	"nvPicPr":           "pic:cNvPicPr pic:cNvPr",
	"off":               "@x @y",
	"overflowPunct":     "@w:val",
	"p":                 "w:hyperlink w:pPr w:r w:rPr",
	"pPr":               "w:adjustRightInd w:ind w:jc w:kern w:kinsoku w:numPr w:overflowPunct w:pStyle w:rPr w:shd w:snapToGrid w:spacing w:tabs w:textAlignment",
	"pStyle":            "@w:val",
	"pgMar":             "@w:bottom @w:footer @w:gutter @w:header @w:left @w:right @w:top",
	"pgSz":              "@w:h @w:w",
	"pic":               "pic:blipFill pic:nvPicPr pic:spPr",
	"picLocks":          "@noChangeAspect",
	"positionH":         "@relativeFrom wp:posOffset",
	"positionV":         "@relativeFrom wp:posOffset",
	"prstDash":          "@val",
	"prstGeom":          "@prst a:avLst",
	"r":                 "@xml:space w:br w:drawing w:instrText w:rPr w:t w:tab",
	"rFonts":            "@w:ascii @w:eastAsia @w:hAnsi @w:hint",
	"rPr":               "w:b w:color w:highlight w:i w:iCs w:kern w:pStyle w:rFonts w:rStyle w:shd w:spacing w:strike w:sz w:szCs w:u w:vertAlign",
	"rStyle":            "@w:val",
	"right":             "@w:color @w:space @w:sz @w:val",
	"sectPr":            "w:cols w:docGrid w:pgMar w:pgSz",
	"shd":               "@w:color @w:fill @w:themeFill @w:themeFillTint @w:val",
	"simplePos":         "@x @y",
	"snapToGrid":        "@w:val",
	"solidFill":         "a:srgbClr",
	"spLocks":           "@noChangeArrowheads",
	"spPr":              "@bwMode a:blipFill a:ln a:noFill a:prstGeom a:solidFill a:xfrm",
	"spacing":           "@w:before @w:beforeLines @w:line @w:lineRule @w:val",
	"srgbClr":           "@val",
	"stretch":           "a:fillRect",
	"strike":            "@w:val",
	"sz":                "@w:val",
	"szCs":              "@w:val",
	"t":                 "@xml:space",
	"tab":               "@w:pos @w:val",
	"tabs":              "w:tab",
	"tailEnd":           "@len @type @w",
	"tbl":               "w:tblGrid w:tblPr w:tr",
	"tblBorders":        "w:bottom w:insideH w:insideV w:left w:right w:top",
	"tblGrid":           "w:gridCol",
	"tblLook":           "@w:firstColumn @w:firstRow @w:lastColumn @w:lastRow @w:noHBand @w:noVBand @w:val",
	"tblPr":             "w:jc w:tblBorders w:tblLook w:tblStyle w:tblW w:tblpPr",
	"tblStyle":          "@w:val",
	"tblW":              "@w:type @w:w",
	"tblpPr":            "@w:horzAnchor @w:leftFromText @w:rightFromText @w:tblpX @w:tblpXSpec @w:tblpY @w:tblpYSpec @w:vertAnchor",
	"tc":                "w:p w:tcPr",
	"tcBorders":         "w:bottom w:insideH w:insideV w:left w:right w:top",
	"tcPr":              "w:gridSpan w:shd w:tcBorders w:tcW w:vAlign w:vMerge",
	"tcW":               "@w:type @w:w",
	"textAlignment":     "@w:val",
	"tile":              "@algn @flip @sx @sy @tx @ty",
	"top":               "@w:color @w:space @w:sz @w:val",
	"tr":                "w:tc w:trPr",
	"trHeight":          "@w:hRule @w:val",
	"trPr":              "w:jc w:trHeight",
	"txbx":              "w:txbxContent",
	"txbxContent":       "w:p",
	"u":                 "@w:val",
	"vAlign":            "@w:val",
	"vMerge":            "@w:val",
	"vertAlign":         "@w:val",
	"wgp":               "pic:pic wpc:wpc wpg:cNvGrpSpPr wpg:grpSp wpg:grpSpPr wps:wsp",
	"whole":             "a:ln",
	"wpc":               "pic:pic wpc:bg wpc:whole wpg:wgp wps:wsp",
	"wrapSquare":        "@wrapText",
	"wsp":               "wps:bodyPr wps:cNvCnPr wps:cNvPr wps:cNvSpPr wps:spPr wps:txbx",
	"xfrm":              "@flipH @flipV @rot a:chExt a:chOff a:ext a:off",
}
