package world

import "github.com/signintech/gopdf"

// pageSizes are the page sizes gopdf offers.
var pageSizes = []*gopdf.Rect{
	gopdf.PageSizeLetter,
	gopdf.PageSizeLetterSmall,
	gopdf.PageSizeTabloid,
	gopdf.PageSizeLedger,
	gopdf.PageSizeLegal,
	gopdf.PageSizeStatement,
	gopdf.PageSizeExecutive,
	gopdf.PageSizeA0,
	gopdf.PageSizeA1,
	gopdf.PageSizeA2,
	gopdf.PageSizeA3,
	gopdf.PageSizeA3Landscape,
	gopdf.PageSizeA4,
	gopdf.PageSizeA4Landscape,
	gopdf.PageSizeA4Small,
	gopdf.PageSizeA5,
	gopdf.PageSizeB4,
	gopdf.PageSizeB5,
	gopdf.PageSizeFolio,
	gopdf.PageSizeQuarto,
	gopdf.PageSize10x14,
}

// named2 are their widths and heights in points.
var named2 = [][2]float64{
	{612, 792},
	{612, 792},
	{792, 1224},
	{1224, 792},
	{612, 1008},
	{396, 612},
	{540, 720},
	{2384, 3371},
	{1685, 2384},
	{1190, 1684},
	{842, 1190},
	{1190, 842},
	{595, 842},
	{842, 595},
	{595, 842},
	{420, 595},
	{729, 1032},
	{516, 729},
	{612, 936},
	{610, 780},
	{720, 1008},
}
