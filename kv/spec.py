"""Format specification: every kiutils class, its fields, their domains and their file layout."""
from .model import *
from .model import NUM, TEXT, ATOM, BOOL, LAYER, ONUM, OTEXT, OATOM, XY, XYA, XYU
from .sx import A, Q, NL, SP, WS, BL, T

# ================================================================================ items/common.py
spec('Position', 'items.common', dict(X=NUM, Y=NUM, angle=ONUM, unlocked=BOOL))
spec('Coordinate', 'items.common', dict(X=NUM, Y=NUM, Z=NUM), lambda o: T('xyz', o.X, o.Y, o.Z))


def _color(o):
    return T('color', o.R, o.G, o.B, A(o.A, '%%.%df' % o.precision) if o.precision is not None else o.A)


BYTE = Int(0, 255)
spec('ColorRGBA', 'items.common', dict(R=BYTE, G=BYTE, B=BYTE, A=NUM, precision=Const(None)), _color)
COLOR = O('ColorRGBA')
OCOLOR = Opt(COLOR)
STYLE = Word('default', 'solid', 'dash', 'dash_dot', 'dash_dot_dot', 'dot')
spec('Stroke', 'items.common', dict(width=NUM, type=Opt(STYLE), color=OCOLOR),
     lambda o: T('stroke', T('width', o.width), opt('type', o.type), o.color and build(o.color)))
STROKE = O('Stroke')
spec('Font', 'items.common',
     dict(face=OTEXT, height=NUM, width=NUM, thickness=ONUM, bold=BOOL, italic=BOOL, lineSpacing=ONUM, color=OCOLOR),
     lambda o: T('font', opt('face', o.face, True), T('size', o.height, o.width), o.color and build(o.color),
                 opt('thickness', o.thickness), 'bold' if o.bold else None, 'italic' if o.italic else None,
                 opt('line_spacing', o.lineSpacing)))


def _justify(o):
    if o.horizontally is None and o.vertically is None and not o.mirror:
        return None
    return T('justify', o.horizontally, o.vertically, 'mirror' if o.mirror else None)


spec('Justify', 'items.common', dict(horizontally=Opt(Enum('left', 'right', 'center')), vertically=Opt(Enum('top', 'bottom')),
                                     mirror=BOOL), _justify)
spec('Effects', 'items.common', dict(font=O('Font'), justify=O('Justify'), hide=BOOL, href=OTEXT),
     lambda o: T('effects', build(o.font), build(o.justify), opt('href', o.href, True), 'hide' if o.hide else None))
EFFECTS = O('Effects')
spec('Net', 'items.common', dict(number=Int(0, 5000), name=TEXT), lambda o: T('net', o.number, Q(o.name)))
spec('Group', 'items.common', dict(name=TEXT, locked=BOOL, id=ATOM, members=List(ATOM)),
     lambda o: T('group', Q(o.name), 'locked' if o.locked else None, T('id', o.id) if o.id else None,
                 NL(T('members', [NL(m, 2) for m in o.members], close=0, closed=True)), close=0))


def _page_tune(c, o):
    if o.paperSize == 'User':
        o.f['width'], o.f['height'] = c.num(), c.num()
    else:
        o.f['width'] = o.f['height'] = None


class Paper(Text):
    def gen(self, c):
        return c.pick(['A4', 'A3', 'A0', 'A', 'E', 'USLetter', 'portrait', 'User', 'User', 'User']) if c.rng.random() < 0.8 else c.text()


spec('PageSettings', 'items.common', dict(paperSize=Paper(), width=ONUM, height=ONUM, portrait=BOOL),
     lambda o: T('paper', Q(o.paperSize), o.width, o.height, 'portrait' if o.portrait else None), _page_tune)
spec('TitleBlock', 'items.common', dict(title=OTEXT, date=OTEXT, revision=OTEXT, company=OTEXT, comments=Dict(Int(1, 20), TEXT)),
     lambda o: T('title_block', NL(opt('title', o.title, True)), NL(opt('date', o.date, True)), NL(opt('rev', o.revision, True)),
                 NL(opt('company', o.company, True)), [NL(T('comment', n, Q(t))) for n, t in o.comments.items()], close=0))
spec('Property', 'items.common', dict(key=TEXT, value=TEXT, id=Opt(Int(0, 50)), position=XYA, effects=Opt(EFFECTS), showName=BOOL),
     lambda o: T('property', Q(o.key), Q(o.value), opt('id', o.id), xya('at', o.position), flag('show_name', o.showName),
                 o.effects and NL(build(o.effects)), close=0 if o.effects else None))
PROPERTY = O('Property')
spec('RenderCachePolygon', 'items.common', dict(pts=List(XY)),
     lambda o: T('polygon', NL(T('pts', [(NL if i % 4 == 0 else SP)(xy('xy', p), 2) for i, p in enumerate(o.pts)],
                                 close=0, closed=True)), close=0))
spec('RenderCache', 'items.common', dict(text=TEXT, id=NUM, polygons=List(O('RenderCachePolygon'))),
     lambda o: T('render_cache', Q(o.text), o.id, [NL(build(p)) for p in o.polygons], close=0))
FILLT = Word('none', 'outline', 'background', 'color', 'solid')
spec('Fill', 'items.common', dict(type=FILLT, color=OCOLOR),
     lambda o: T('fill', T('type', o.type), o.color and build(o.color)))
spec('Image', 'items.common', dict(position=XY, scale=ONUM, data=List(ATOM), uuid=OATOM, layer=Opt(LAYER)),
     lambda o: T('image', xy('at', o.position), opt('layer', o.layer, True), opt('scale', o.scale), NL(opt('uuid', o.uuid)),
                 NL(T('data', [NL(d) for d in o.data], close=0)), close=0))

# ================================================================================ items/brditems.py
spec('GeneralSettings', 'items.brditems', dict(thickness=NUM), lambda o: T('general', NL(T('thickness', o.thickness)), close=0))
spec('LayerToken', 'items.brditems', dict(ordinal=Int(0, 63), name=LAYER, type=Word('signal', 'user', 'power', 'mixed', 'jumper'),
                                          userName=OTEXT),
     lambda o: T(o.ordinal, Q(o.name), o.type, None if o.userName is None else Q(o.userName), group='layer'))
spec('StackupSubLayer', 'items.brditems', dict(thickness=NUM, material=OTEXT, epsilonR=ONUM, lossTangent=ONUM), loads=False)


def _stackuplayer(o):
    subs = []
    for s in o.subLayers:
        subs += [NL('addsublayer'), T('thickness', s.thickness), opt('material', s.material, True),
                 opt('epsilon_r', s.epsilonR), opt('loss_tangent', s.lossTangent)]
    return T('layer', Q(o.name), T('type', Q(o.type)), opt('color', o.color, True), opt('thickness', o.thickness),
             opt('material', o.material, True), opt('epsilon_r', o.epsilonR), opt('loss_tangent', o.lossTangent), subs,
             fixed='order' if subs else False)


spec('StackupLayer', 'items.brditems',
     dict(name=LAYER, type=TEXT, color=OTEXT, thickness=ONUM, material=OTEXT, epsilonR=ONUM, lossTangent=ONUM,
          subLayers=List(O('StackupSubLayer'))), _stackuplayer)
spec('Stackup', 'items.brditems',
     dict(layers=List(O('StackupLayer')), copperFinish=OTEXT, dielectricContraints=Opt(Word('yes', 'no')),
          edgeConnector=Opt(Word('yes', 'bevelled')), castellatedPads=BOOL, edgePlating=BOOL),
     lambda o: T('stackup', [NL(build(x)) for x in o.layers], NL(opt('copper_finish', o.copperFinish, True)),
                 NL(opt('dielectric_constraints', o.dielectricContraints)), NL(opt('edge_connector', o.edgeConnector)),
                 NL(T('castellated_pads', 'yes') if o.castellatedPads else None),
                 NL(T('edge_plating', 'yes') if o.edgePlating else None), close=0))


class HexSel(Atom):
    def gen(self, c):
        r = c.rng
        return r.choice(['0x00010fc_ffffffff', '0x0000000_00000000', '0x%07x_%08x' % (r.getrandbits(28), r.getrandbits(32))])


_B = {True: 'true', False: 'false', None: None}


def _plot(o):
    def b(h, v):
        return NL(opt(h, _B[v]))

    def f6(h, v):
        return NL(None if v is None else T(h, A(float(v), '%.6f')))
    return T('pcbplotparams', NL(opt('layerselection', o.layerSelection or None)),
             NL(opt('plot_on_all_layers_selection', o.plotOnAllLayersSelection)),
             b('disableapertmacros', o.disableApertMacros), b('usegerberextensions', o.useGerberExtensions),
             b('usegerberattributes', o.useGerberAttributes), b('usegerberadvancedattributes', o.useGerberAdvancedAttributes),
             b('creategerberjobfile', o.createGerberJobFile), f6('dashed_line_dash_ratio', o.dashedLineDashRatio),
             f6('dashed_line_gap_ratio', o.dashedLineGapRatio), b('svguseinch', o.svgUseInch),
             NL(T('svgprecision', o.svgPrecision)), b('excludeedgelayer', o.excludeEdgeLayer), b('plotframeref', o.plotFameRef),
             b('viasonmask', o.viasOnMask), NL(T('mode', o.mode)), b('useauxorigin', o.useAuxOrigin),
             NL(T('hpglpennumber', o.hpglPenNumber)), NL(T('hpglpenspeed', o.hpglPenSpeed)),
             f6('hpglpendiameter', o.hpglPenDiameter), b('dxfpolygonmode', o.dxfPolygonMode),
             b('dxfimperialunits', o.dxfImperialUnits), b('dxfusepcbnewfont', o.dxfUsePcbnewFont), b('psnegative', o.psNegative),
             b('psa4output', o.psA4Output), b('plotreference', o.plotReference), b('plotvalue', o.plotValue),
             b('plotinvisibletext', o.plotInvisibleText), b('sketchpadsonfab', o.sketchPadsOnFab),
             b('subtractmaskfromsilk', o.subtractMaskFromSilk), NL(T('outputformat', o.outputFormat)), b('mirror', o.mirror),
             NL(T('drillshape', o.drillShape)), NL(T('scaleselection', o.scaleSelection)),
             NL(T('outputdirectory', Q(o.outputDirectory))), close=0)


spec('PlotSettings', 'items.brditems', dict(
    layerSelection=HexSel(), plotOnAllLayersSelection=Opt(HexSel()), disableApertMacros=BOOL, useGerberExtensions=BOOL,
    useGerberAttributes=BOOL, useGerberAdvancedAttributes=BOOL, createGerberJobFile=BOOL, dashedLineDashRatio=Opt(Dec(6)),
    dashedLineGapRatio=Opt(Dec(6)), svgUseInch=Opt(BOOL), svgPrecision=NUM, excludeEdgeLayer=Opt(BOOL), plotFameRef=BOOL,
    viasOnMask=BOOL, mode=Int(0, 9), useAuxOrigin=BOOL, hpglPenNumber=Int(0, 9), hpglPenSpeed=Int(0, 99), hpglPenDiameter=Dec(6),
    dxfPolygonMode=BOOL, dxfImperialUnits=BOOL, dxfUsePcbnewFont=BOOL, psNegative=BOOL, psA4Output=BOOL, plotReference=BOOL,
    plotValue=BOOL, plotInvisibleText=BOOL, sketchPadsOnFab=BOOL, subtractMaskFromSilk=BOOL, outputFormat=Int(0, 9), mirror=BOOL,
    drillShape=Int(0, 9), scaleSelection=Int(0, 9), outputDirectory=TEXT), _plot)
spec('SetupData', 'items.brditems', dict(
    stackup=Opt(O('Stackup')), packToMaskClearance=NUM, solderMaskMinWidth=ONUM, padToPasteClearance=ONUM,
    padToPasteClearanceRatio=ONUM, auxAxisOrigin=Opt(XY), gridOrigin=Opt(XY), plotSettings=Opt(O('PlotSettings'))),
    lambda o: T('setup', o.stackup and NL(build(o.stackup)), NL(T('pad_to_mask_clearance', o.packToMaskClearance)),
                NL(opt('solder_mask_min_width', o.solderMaskMinWidth)), NL(opt('pad_to_paste_clearance', o.padToPasteClearance)),
                NL(opt('pad_to_paste_clearance_ratio', o.padToPasteClearanceRatio)),
                o.auxAxisOrigin and NL(xy('aux_axis_origin', o.auxAxisOrigin)),
                o.gridOrigin and NL(xy('grid_origin', o.gridOrigin)), o.plotSettings and NL(build(o.plotSettings)), close=0))
NET = Int(0, 5000)
spec('Segment', 'items.brditems', dict(start=XY, end=XY, width=NUM, layer=LAYER, locked=BOOL, net=NET, tstamp=ATOM),
     lambda o: T('segment', 'locked' if o.locked else None, xy('start', o.start), xy('end', o.end), T('width', o.width),
                 T('layer', Q(o.layer)), T('net', o.net), T('tstamp', o.tstamp) if o.tstamp else None, group='trace'))
spec('Via', 'items.brditems', dict(
    type=Opt(Enum('blind', 'micro')), locked=BOOL, position=XY, size=NUM, drill=NUM, layers=List(LAYER), removeUnusedLayers=BOOL,
    keepEndLayers=BOOL, free=BOOL, net=NET, tstamp=OATOM),
    lambda o: T('via', o.type, 'locked' if o.locked else None, xy('at', o.position), T('size', o.size), T('drill', o.drill),
                T('layers', [Q(x) for x in o.layers]), flag('remove_unused_layers', o.removeUnusedLayers),
                flag('keep_end_layers', o.keepEndLayers), flag('free', o.free), T('net', o.net), opt('tstamp', o.tstamp),
                group='trace'))
spec('Arc', 'items.brditems', dict(start=XY, mid=XY, end=XY, width=NUM, layer=LAYER, locked=BOOL, net=NET, tstamp=OATOM),
     lambda o: T('arc', 'locked' if o.locked else None, xy('start', o.start), xy('mid', o.mid), xy('end', o.end),
                 T('width', o.width), T('layer', Q(o.layer)), T('net', o.net), opt('tstamp', o.tstamp), group='trace'))
spec('Target', 'items.brditems', dict(type=Word('plus', 'x'), position=XY, size=NUM, width=NUM, layer=LAYER, tstamp=OATOM),
     lambda o: T('target', o.type, xy('at', o.position), T('size', o.size), T('width', o.width), T('layer', Q(o.layer)),
                 opt('tstamp', o.tstamp)))

# ================================================================================ items/gritems.py


def line(*nodes, k=2):
    """Nodes sharing a line of their own"""
    nodes = [n for n in nodes if n is not None]
    return [NL(nodes[0], k)] + nodes[1:] if nodes else []


def lk(o):
    return 'locked' if o.locked else None


def layer(v, *more):
    return None if v is None else T('layer', Q(v), *more)


def pts(ps, k=2, close=0, **kw):
    return T('pts', [NL(xy('xy', p), k) for p in ps], close=close, closed=True, **kw)


def _tune_knock(c, o):
    if o.layer is None:
        o.f['knockout'] = False


POLYPTS = List(XY, lo=1)
GRW = NUM   # the width token is always present (a missing one means the default width on loading)
spec('GrText', 'items.gritems', dict(text=TEXT, knockout=BOOL, position=XYA, layer=Opt(LAYER), effects=EFFECTS, tstamp=OATOM,
                                     locked=BOOL, renderCache=Opt(O('RenderCache'))),
     lambda o: T('gr_text', lk(o), Q(o.text), xya('at', o.position), layer(o.layer, 'knockout' if o.knockout else None),
                 opt('tstamp', o.tstamp), NL(build(o.effects)), o.renderCache and NL(build(o.renderCache)), close=0, group='gr'),
     _tune_knock)


def _textbox_tune(c, o):
    four = [XY.gen(c) for _ in range(4)]
    if o.angle is None or o.angle in (0, 90, 180, 270):
        o.f['start'], o.f['end'] = XY.gen(c), XY.gen(c)
        o.f['pts'] = four if c.rng.random() < 0.3 else []
    else:
        o.f['pts'] = four


class BoxAngle(Num):
    def gen(self, c):
        return c.pick([0, 90, 180, 270, 45, 30.5, c.num(), c.num()])


def _textbox(head, gap, grp):
    def b(o):
        p = None
        if len(o.pts) == 4:
            q = [xy('xy', x) for x in o.pts]
            p = NL(T('pts', NL(q[0], 2), [WS(' ' * gap, x) for x in q[1:]], close=0, closed=True))
        return T(head, lk(o), Q(o.text), p,
                 line(o.start and xy('start', o.start), o.end and xy('end', o.end), opt('angle', o.angle), layer(o.layer),
                      opt('tstamp', o.tstamp)),
                 o.effects and NL(build(o.effects)), o.stroke and NL(build(o.stroke)),
                 o.renderCache and NL(build(o.renderCache)), close=0, group=grp)
    return b


BOXF = dict(locked=BOOL, text=TEXT, start=Opt(XY), end=Opt(XY), pts=Const([]), angle=Opt(BoxAngle()), layer=LAYER, tstamp=OATOM,
            effects=Opt(EFFECTS), stroke=Opt(STROKE), renderCache=Opt(O('RenderCache')))
BOXF['pts'] = List(XY, lo=4, hi=4)
spec('GrTextBox', 'items.gritems', dict(BOXF), _textbox('gr_text_box', 8, 'gr'), _textbox_tune)
GFILL = Opt(Word('none', 'solid', 'yes', 'no'))


def _gr(head, geo, fill=False):
    return lambda o: T(head, lk(o), [xy(g, getattr(o, g)) for g in geo], opt('angle', o.angle) if head == 'gr_line' else None,
                       layer(o.layer), opt('width', o.width), opt('fill', o.fill) if fill else None, opt('tstamp', o.tstamp), group='gr')


spec('GrLine', 'items.gritems', dict(start=XY, end=XY, angle=ONUM, layer=Opt(LAYER), width=GRW, tstamp=OATOM, locked=BOOL),
     _gr('gr_line', ('start', 'end')))
spec('GrRect', 'items.gritems', dict(start=XY, end=XY, layer=Opt(LAYER), width=GRW, fill=GFILL, tstamp=OATOM, locked=BOOL),
     _gr('gr_rect', ('start', 'end'), True))
spec('GrCircle', 'items.gritems', dict(center=XY, end=XY, layer=Opt(LAYER), width=GRW, fill=GFILL, tstamp=OATOM, locked=BOOL),
     _gr('gr_circle', ('center', 'end'), True))
spec('GrArc', 'items.gritems', dict(start=XY, mid=XY, end=XY, layer=Opt(LAYER), width=GRW, tstamp=OATOM, locked=BOOL),
     _gr('gr_arc', ('start', 'mid', 'end')))


def _grpoly(o, board=False):
    p = pts(o.coordinates) if board else pts(o.coordinates, 4, 2)
    return T('gr_poly', lk(o), NL(p) if board else p, layer(o.layer), opt('width', o.width), opt('fill', o.fill),
             opt('tstamp', o.tstamp), group='gr')


spec('GrPoly', 'items.gritems', dict(layer=Opt(LAYER), coordinates=POLYPTS, width=GRW, fill=GFILL, tstamp=OATOM, locked=BOOL), _grpoly)
spec('GrCurve', 'items.gritems', dict(coordinates=POLYPTS, layer=Opt(LAYER), width=GRW, tstamp=OATOM, locked=BOOL),
     lambda o: T('gr_curve', lk(o), pts(o.coordinates, 2, 0), layer(o.layer), opt('width', o.width), opt('tstamp', o.tstamp), group='gr'))

# ================================================================================ items/dimensions.py
SMALL = Int(0, 12)
spec('DimensionFormat', 'items.dimensions', dict(prefix=OTEXT, suffix=OTEXT, units=SMALL, unitsFormat=SMALL, precision=SMALL,
                                                 overrideValue=OTEXT, suppressZeroes=BOOL),
     lambda o: T('format', opt('prefix', o.prefix, True), opt('suffix', o.suffix, True), T('units', o.units),
                 T('units_format', o.unitsFormat), T('precision', o.precision), opt('override_value', o.overrideValue, True),
                 'suppress_zeroes' if o.suppressZeroes else None))
spec('DimensionStyle', 'items.dimensions', dict(thickness=NUM, arrowLength=NUM, textPositionMode=SMALL, extensionHeight=ONUM,
                                                textFrame=Opt(SMALL), extensionOffset=ONUM, keepTextAligned=BOOL),
     lambda o: T('style', T('thickness', o.thickness), T('arrow_length', o.arrowLength), T('text_position_mode', o.textPositionMode),
                 opt('extension_height', o.extensionHeight), opt('text_frame', o.textFrame),
                 opt('extension_offset', o.extensionOffset), 'keep_text_aligned' if o.keepTextAligned else None))
spec('Dimension', 'items.dimensions', dict(
    locked=BOOL, type=Word('aligned', 'leader', 'center', 'orthogonal', 'radial'), layer=LAYER, tstamp=OATOM, pts=POLYPTS,
    height=ONUM, orientation=ONUM, leaderLength=ONUM, grText=Opt(O('GrText')), format=Opt(O('DimensionFormat')),
    style=O('DimensionStyle')),
    lambda o: T('dimension', lk(o), T('type', o.type), layer(o.layer), opt('tstamp', o.tstamp),
                NL(T('pts', [xy('xy', p) for p in o.pts], closed=True)), NL(opt('height', o.height)),
                NL(opt('orientation', o.orientation)), NL(opt('leader_length', o.leaderLength)),
                o.grText and NL(build(o.grText)), o.format and NL(build(o.format)), NL(build(o.style)), close=0))

# ================================================================================ items/fpitems.py
spec('FpText', 'items.fpitems', dict(type=Word('reference', 'value', 'user'), text=TEXT, position=XYU, layer=LAYER, knockout=BOOL,
                                     hide=BOOL, effects=EFFECTS, tstamp=OATOM, renderCache=Opt(O('RenderCache')), locked=BOOL),
     lambda o: T('fp_text', o.type, lk(o), Q(o.text),
                 T('at', o.position.X, o.position.Y, o.position.angle, 'unlocked' if o.position.unlocked else None),
                 layer(o.layer, 'knockout' if o.knockout else None), 'hide' if o.hide else None, NL(build(o.effects)),
                 NL(opt('tstamp', o.tstamp)), o.renderCache and NL(build(o.renderCache)), close=0, group='fp'))
spec('FpTextBox', 'items.fpitems', dict(BOXF), _textbox('fp_text_box', 6, 'fp'), _textbox_tune)


def _wtune(c, o):
    if c.rng.random() < 0.5:
        o.f['width'], o.f['stroke'] = c.num(), None
    else:
        o.f['width'], o.f['stroke'] = None, STROKE.gen(c)


def _fp(head, geo, fill=False):
    def b(o):
        g = [xy(x, getattr(o, x)) for x in geo] if geo else [pts(o.coordinates, 4, 2) if head == 'fp_poly' else pts(o.coordinates, 2, 0)]
        return T(head, g, layer(o.layer), opt('width', o.width) if o.width is not None else o.stroke and build(o.stroke),
                 opt('fill', o.fill) if fill else None, lk(o), opt('tstamp', o.tstamp), group='fp')
    return b


_W = dict(layer=LAYER, width=ONUM, stroke=Opt(STROKE), locked=BOOL, tstamp=OATOM)
spec('FpLine', 'items.fpitems', dict(_W, start=XY, end=XY), _fp('fp_line', ('start', 'end')), _wtune)
spec('FpRect', 'items.fpitems', dict(_W, start=XY, end=XY, fill=GFILL), _fp('fp_rect', ('start', 'end'), True), _wtune)
spec('FpCircle', 'items.fpitems', dict(_W, center=XY, end=XY, fill=GFILL), _fp('fp_circle', ('center', 'end'), True), _wtune)
spec('FpArc', 'items.fpitems', dict(_W, start=XY, mid=XY, end=XY), _fp('fp_arc', ('start', 'mid', 'end')), _wtune)
spec('FpPoly', 'items.fpitems', dict(_W, coordinates=POLYPTS, fill=GFILL), _fp('fp_poly', None, True), _wtune)
spec('FpCurve', 'items.fpitems', dict(_W, coordinates=POLYPTS), _fp('fp_curve', None), _wtune)

# ================================================================================ items/zones.py
ALLOW = Word('allowed', 'not_allowed')
spec('KeepoutSettings', 'items.zones', dict(tracks=ALLOW, vias=ALLOW, pads=ALLOW, copperpour=ALLOW, footprints=ALLOW),
     lambda o: T('keepout', T('tracks', o.tracks), T('vias', o.vias), T('pads', o.pads, close=' '), T('copperpour', o.copperpour),
                 T('footprints', o.footprints)))
spec('FillSettings', 'items.zones', dict(
    yes=BOOL, mode=Opt(Word('hatch', 'solid')), thermalGap=ONUM, thermalBridgeWidth=ONUM, smoothingStyle=Opt(Word('chamfer', 'fillet')),
    smoothingRadius=ONUM, islandRemovalMode=Opt(SMALL), islandAreaMin=ONUM, hatchThickness=ONUM, hatchGap=ONUM,
    hatchOrientation=ONUM, hatchSmoothingLevel=Opt(SMALL), hatchSmoothingValue=ONUM, hatchBorderAlgorithm=Opt(SMALL),
    hatchMinHoleArea=ONUM),
    lambda o: T('fill', 'yes' if o.yes else None, opt('mode', o.mode), opt('thermal_gap', o.thermalGap),
                opt('thermal_bridge_width', o.thermalBridgeWidth), opt('smoothing', o.smoothingStyle), opt('radius', o.smoothingRadius),
                opt('island_removal_mode', o.islandRemovalMode), opt('island_area_min', o.islandAreaMin),
                NL(opt('hatch_thickness', o.hatchThickness)), opt('hatch_gap', o.hatchGap), opt('hatch_orientation', o.hatchOrientation),
                NL(opt('hatch_smoothing_level', o.hatchSmoothingLevel)), opt('hatch_smoothing_value', o.hatchSmoothingValue),
                NL(opt('hatch_border_algorithm', o.hatchBorderAlgorithm)), opt('hatch_min_hole_area', o.hatchMinHoleArea)))
spec('ZonePolygon', 'items.zones', dict(coordinates=POLYPTS), lambda o: T('polygon', NL(pts(o.coordinates)), close=0))
spec('FilledPolygon', 'items.zones', dict(layer=LAYER, island=BOOL, coordinates=POLYPTS),
     lambda o: T('filled_polygon', NL(layer(o.layer)), NL(flag('island', o.island)), NL(pts(o.coordinates)), close=0))
spec('FillSegments', 'items.zones', dict(layer=LAYER, coordinates=POLYPTS),
     lambda o: T('fill_segments', NL(layer(o.layer)), NL(pts(o.coordinates)), close=0))
spec('Hatch', 'items.zones', dict(style=Word('none', 'edge', 'full'), pitch=NUM), loads=False)


class ZLayer(Text):
    def gen(self, c):
        return c.pick(['F&B.Cu', '*.Cu', c.layer(), c.layer(), c.layer()])


def _zone(o):
    one = len(o.layers) == 1 and o.layers[0] not in ('F&B.Cu', '*.Cu')
    return T('zone', lk(o), T('net', o.net), T('net_name', Q(o.netName)),
             T('layer' if one else 'layers', [Q(x) for x in o.layers]), opt('tstamp', o.tstamp), opt('name', o.name, True),
             T('hatch', o.hatch.style, o.hatch.pitch), NL(opt('priority', o.priority)),
             NL(T('connect_pads', o.connectPads, T('clearance', o.clearance))),
             line(T('min_thickness', o.minThickness), opt('filled_areas_thickness', o.filledAreasThickness)),
             o.keepoutSettings and NL(build(o.keepoutSettings)), o.fillSettings and NL(build(o.fillSettings)),
             [NL(build(p)) for p in o.polygons], [NL(build(p)) for p in o.filledPolygons],
             o.fillSegments and NL(build(o.fillSegments)), close=0)


spec('Zone', 'items.zones', dict(
    locked=BOOL, net=NET, netName=TEXT, layers=List(ZLayer(), lo=1), tstamp=OATOM, name=OTEXT, hatch=O('Hatch'),
    priority=Opt(Int(0, 100)), connectPads=Opt(Word('yes', 'no', 'thru_hole_only')), clearance=NUM, minThickness=NUM,
    filledAreasThickness=Opt(Word('yes', 'no')), keepoutSettings=Opt(O('KeepoutSettings')), fillSettings=Opt(O('FillSettings')),
    polygons=List(O('ZonePolygon')), filledPolygons=List(O('FilledPolygon')), fillSegments=Opt(O('FillSegments'), 0.7)), _zone)

# ================================================================================ footprint.py


def _attr(o):
    w = [o.type, 'board_only' if o.boardOnly else None, 'exclude_from_pos_files' if o.excludeFromPosFiles else None,
         'exclude_from_bom' if o.excludeFromBom else None, 'allow_missing_courtyard' if o.allowMissingCourtyard else None]
    return T('attr', w) if any(w) else None


spec('Attributes', 'footprint', dict(type=Opt(Enum('smd', 'through_hole')), boardOnly=BOOL, excludeFromPosFiles=BOOL,
                                     excludeFromBom=BOOL, allowMissingCourtyard=BOOL), _attr)
XYZ = O('Coordinate')
spec('Model', 'footprint', dict(path=TEXT, pos=XYZ, scale=XYZ, rotate=XYZ, hide=BOOL, opacity=ONUM),
     lambda o: T('model', Q(o.path), 'hide' if o.hide else None, NL(opt('opacity', o.opacity)),
                 NL(T('offset', build(o.pos), fixed=True)), NL(T('scale', build(o.scale), fixed=True)),
                 NL(T('rotate', build(o.rotate), fixed=True)), close=0))


def _drill_tune(c, o):
    if not o.oval:
        o.f['width'] = None


spec('DrillDefinition', 'footprint', dict(oval=BOOL, diameter=NUM, width=ONUM, offset=Opt(XY)),
     lambda o: T('drill', 'oval' if o.oval else None, None if o.diameter == 0 and not o.oval and o.offset else o.diameter,
                 o.width if o.oval else None, o.offset and xy('offset', o.offset)), _drill_tune)
spec('PadOptions', 'footprint', dict(clearance=Word('outline', 'convexhull'), anchor=Word('rect', 'circle')),
     lambda o: T('options', T('clearance', o.clearance), T('anchor', o.anchor)))


class PLayer(Text):
    def gen(self, c):
        return c.pick(['*.Cu', '*.Mask', '*.Paste', 'F&B.Cu', '*.SilkS', 'a & b', '*.(x)', 'R&D "x"', 'F.Cu&*.Cu ', c.layer(), c.layer(), c.layer(), c.layer()])


def _pad(o):
    prims = None
    if o.customPadPrimitives:
        prims = NL(T('primitives', [NL(build(p), 2) for p in o.customPadPrimitives], close=0, closed=True))
    return T('pad', Q(o.number), o.type, o.shape, lk(o), xya('at', o.position), xy('size', o.size), o.drill and build(o.drill),
             opt('property', o.property), T('layers', [A(x) if ('*.' in x or '&' in x) and not re.search(r'[\s()"]', x) else Q(x) for x in o.layers]),
             flag('remove_unused_layers', o.removeUnusedLayers), flag('keep_end_layers', o.keepEndLayers),
             opt('roundrect_rratio', o.roundrectRatio),
             line(opt('chamfer_ratio', o.chamferRatio), T('chamfer', list(o.chamfer)) if o.chamfer else None),
             NL(opt('die_length', o.dieLength)),
             line(o.net and build(o.net), opt('pinfunction', o.pinFunction, True), opt('pintype', o.pinType, True),
                  opt('solder_mask_margin', o.solderMaskMargin), opt('solder_paste_margin', o.solderPasteMargin),
                  opt('solder_paste_margin_ratio', o.solderPasteMarginRatio), opt('clearance', o.clearance),
                  opt('zone_connect', o.zoneConnect), opt('thermal_width', o.thermalWidth), opt('thermal_gap', o.thermalGap)),
             o.customPadOptions and NL(build(o.customPadOptions)), prims, opt('tstamp', o.tstamp))


GRALL = ('GrText', 'GrTextBox', 'GrLine', 'GrRect', 'GrCircle', 'GrArc', 'GrPoly', 'GrCurve')
ZC = Opt(Int(0, 3))
spec('Pad', 'footprint', dict(
    number=TEXT, type=Word('thru_hole', 'smd', 'connect', 'np_thru_hole'),
    shape=Word('circle', 'rect', 'oval', 'trapezoid', 'roundrect', 'custom'), position=XYA, locked=BOOL, size=XY,
    drill=Opt(O('DrillDefinition')), layers=List(PLayer()),
    property=Opt(Word('pad_prop_bga', 'pad_prop_fiducial_glob', 'pad_prop_heatsink', 'pad_prop_castellated')),
    removeUnusedLayers=BOOL, keepEndLayers=BOOL, roundrectRatio=ONUM, chamferRatio=ONUM,
    chamfer=List(Enum('top_left', 'top_right', 'bottom_left', 'bottom_right')), net=Opt(O('Net')), tstamp=OATOM, pinFunction=OTEXT,
    pinType=OTEXT, dieLength=ONUM, solderMaskMargin=ONUM, solderPasteMargin=ONUM, solderPasteMarginRatio=ONUM, clearance=ONUM,
    zoneConnect=ZC, thermalWidth=ONUM, thermalGap=ONUM, customPadOptions=Opt(O('PadOptions')),
    customPadPrimitives=List(U(*GRALL))), _pad)


class Nick(Text):
    """Library nickname: no colon"""
    def gen(self, c):
        for _ in range(10):
            t = c.text(False)
            if ':' not in t:
                return t
        return 'Lib'


class Entry(Text):
    """Entry name of a library item"""
    def __init__(self, symbol=False):
        self.symbol = symbol

    def gen(self, c):
        for _ in range(10):
            t = c.text(False)
            if ':' in t or (self.symbol and unit_like(t)):
                continue
            return t
        return 'Entry'


class TopEntry(Entry):
    """Name of a symbol in a library or schematic: may end in numbers like that of a unit"""
    def __init__(self):
        super().__init__()

    def gen(self, c):
        t = super().gen(c)
        if c.rng.random() < 0.15:
            t += '_%d_%d' % (c.rng.choice([0, 1, 2, 162534]), c.rng.choice([0, 1, 10]))
        return t


import re
_UNIT = re.compile(r'.+_\d+_\d+', re.S)


def unit_like(t):
    return _UNIT.fullmatch(t) is not None


def VERSION(c):
    return c.pick([20211014, 20221018, 20230121, 20211123, c.integer(1, 99999999)])


def GENERATOR(c):
    return c.pick(['pcbnew', 'eeschema', 'kiutils', 'kicad_symbol_editor', 'host', c.word()])


VER, GENR = Lax(VERSION), Lax(GENERATOR)


def libid(o):
    return '%s:%s' % (o.libraryNickname, o.entryName) if o.libraryNickname else o.entryName


def _footprint(o, inboard=False):
    lay = T('layer', Q(o.layer))
    return T('footprint', Q(libid(o)), lk(o), 'placed' if o.placed else None, opt('version', o.version), opt('generator', o.generator),
             lay if inboard else NL(lay), line(opt('tedit', o.tedit), opt('tstamp', o.tstamp)),
             o.position and NL(xya('at', o.position)), NL(opt('descr', o.description, True)), NL(opt('tags', o.tags, True)),
             [NL(T('property', Q(k), Q(v))) for k, v in o.properties.items()], NL(opt('path', o.path, True)),
             NL(opt('autoplace_cost90', o.autoplaceCost90)), NL(opt('autoplace_cost180', o.autoplaceCost180)),
             NL(opt('solder_mask_margin', o.solderMaskMargin)), NL(opt('solder_paste_margin', o.solderPasteMargin)),
             NL(opt('solder_paste_ratio', o.solderPasteRatio)), NL(opt('clearance', o.clearance)), NL(opt('zone_connect', o.zoneConnect)),
             NL(opt('thermal_width', o.thermalWidth)), NL(opt('thermal_gap', o.thermalGap)), NL(build(o.attributes)),
             NL(T('private_layers', [Q(x) for x in o.privateLayers]) if o.privateLayers else None),
             NL(T('net_tie_pad_groups', [Q(x) for x in o.netTiePadGroups]) if o.netTiePadGroups else None),
             [NL(gitem(x, 'fp')) for x in o.graphicItems], [NL(build(x)) for x in o.pads], [NL(build(x)) for x in o.zones],
             [NL(build(x)) for x in o.models], [NL(build(x)) for x in o.groups], close=0)


def gitem(x, grp, **kw):
    n = build(x, **kw)
    n.group = grp
    return n


FPALL = ('FpText', 'FpTextBox', 'FpLine', 'FpRect', 'FpCircle', 'FpArc', 'FpPoly', 'FpCurve', 'Image')
spec('Footprint', 'footprint', dict(
    libraryNickname=Opt(Nick()), entryName=Entry(), version=Opt(VER), generator=Opt(GENR), locked=BOOL, placed=BOOL, layer=LAYER,
    tedit=OATOM, tstamp=OATOM, position=Opt(XYA), description=OTEXT, tags=OTEXT, properties=Dict(TEXT, TEXT), path=OTEXT,
    autoplaceCost90=Opt(SMALL), autoplaceCost180=Opt(SMALL), solderMaskMargin=ONUM, solderPasteMargin=ONUM, solderPasteRatio=ONUM,
    clearance=ONUM, zoneConnect=ZC, thermalWidth=ONUM, thermalGap=ONUM, attributes=O('Attributes'), privateLayers=List(LAYER),
    netTiePadGroups=List(TEXT), graphicItems=List(U(*FPALL)), pads=List(O('Pad')), zones=List(O('Zone'), hi=2),
    groups=List(O('Group')), models=List(O('Model'))), _footprint)

# ================================================================================ board.py


def _board(o):
    gfx = [NL(gitem(x, 'gr', board=True) if x.cls == 'GrPoly' else gitem(x, 'gr')) for x in o.graphicItems]
    gfx += [NL(build(x)) for x in o.dimensions] + [NL(build(x)) for x in o.targets]

    def block(items):
        return items + [BL] if items else []
    return T('kicad_pcb', T('version', o.version), T('generator', o.generator), BL, NL(build(o.general)), BL, NL(build(o.paper)),
             block([NL(build(o.titleBlock))] if o.titleBlock else []),
             NL(T('layers', [NL(build(x)) for x in o.layers], close=0, closed=True)), BL, NL(build(o.setup)), BL,
             block([NL(T('property', Q(k), Q(v))) for k, v in o.properties.items()]), block([NL(build(x)) for x in o.nets]),
             [[NL(build(x, inboard=True)), BL] for x in o.footprints], block(gfx), block([NL(build(x)) for x in o.traceItems]),
             [NL(build(x)) for x in o.zones], [NL(build(x)) for x in o.groups], close=0)


spec('Board', 'board', dict(
    version=VER, generator=GENR, general=O('GeneralSettings'), paper=O('PageSettings'), titleBlock=Opt(O('TitleBlock')),
    layers=List(O('LayerToken')), setup=O('SetupData'), properties=Dict(TEXT, TEXT), nets=List(O('Net')),
    footprints=List(O('Footprint'), hi=2), graphicItems=List(U(*GRALL, 'Image')), traceItems=List(U('Segment', 'Via', 'Arc')),
    zones=List(O('Zone'), hi=2), dimensions=List(O('Dimension'), hi=2), targets=List(O('Target'), hi=2), groups=List(O('Group'), hi=2)),
    _board)

# ================================================================================ items/syitems.py
PRIV = 'private'


def pv(o):
    return 'private' if o.private else None


def sf(o):
    return [NL(build(o.stroke)), NL(build(o.fill))]


_SF = dict(stroke=STROKE, fill=O('Fill'))
spec('SyArc', 'items.syitems', dict(_SF, private=BOOL, start=XYA, mid=XYA, end=XYA),
     lambda o: T('arc', pv(o), xya('start', o.start), xya('mid', o.mid), xya('end', o.end), sf(o), close=0, group='sy'))
spec('SyCircle', 'items.syitems', dict(_SF, private=BOOL, center=XY, radius=NUM),
     lambda o: T('circle', pv(o), xy('center', o.center), T('radius', o.radius), sf(o), close=0, group='sy'))
spec('SyCurve', 'items.syitems', dict(_SF, points=List(XY)),
     lambda o: T('curve', NL(pts(o.points)), sf(o), close=0, group='sy'))
spec('SyPolyLine', 'items.syitems', dict(_SF, points=List(XY)),
     lambda o: T('polyline', NL(pts(o.points)), sf(o), close=0, group='sy'))
spec('SyRect', 'items.syitems', dict(_SF, private=BOOL, start=XY, end=XY),
     lambda o: T('rectangle', pv(o), xy('start', o.start), xy('end', o.end), sf(o), close=0, group='sy'))
spec('SyText', 'items.syitems', dict(text=TEXT, position=XYA, effects=EFFECTS, private=BOOL),
     lambda o: T('text', pv(o), Q(o.text), xya('at', o.position), NL(build(o.effects)), close=0, group='sy'))
spec('SyTextBox', 'items.syitems', dict(_SF, text=TEXT, private=BOOL, position=XYA, size=XY, effects=EFFECTS, uuid=OATOM),
     lambda o: T('text_box', pv(o), Q(o.text), line(xya('at', o.position), xy('size', o.size)), sf(o), NL(build(o.effects)),
                 NL(opt('uuid', o.uuid)), close=0, group='sy'))

# ================================================================================ symbol.py
ETYPE = Word('input', 'output', 'bidirectional', 'tri_state', 'passive', 'free', 'unspecified', 'power_in', 'power_out',
             'open_collector', 'open_emitter', 'no_connect')
GSTYLE = Word('line', 'inverted', 'clock', 'inverted_clock', 'input_low', 'clock_low', 'output_low', 'edge_clock_high', 'non_logic')
spec('SymbolAlternativePin', 'symbol', dict(pinName=TEXT, electricalType=ETYPE, graphicalStyle=GSTYLE),
     lambda o: T('alternate', Q(o.pinName), o.electricalType, o.graphicalStyle))


def _pin(o):
    name = T('name', Q(o.name), o.nameEffects and build(o.nameEffects), fixed=True)
    num = T('number', Q(o.number), o.numberEffects and build(o.numberEffects), fixed=True)
    nl = o.nameEffects is not None or o.numberEffects is not None
    return T('pin', o.electricalType, o.graphicalStyle, xya('at', o.position), T('length', o.length), 'hide' if o.hide else None,
             [NL(name), NL(num)] if nl else [name, num], [NL(build(a)) for a in o.alternatePins],
             close=0 if nl or o.alternatePins else None)


spec('SymbolPin', 'symbol', dict(
    electricalType=ETYPE, graphicalStyle=GSTYLE, position=XYA, length=NUM, name=TEXT, nameEffects=Opt(EFFECTS), number=TEXT,
    numberEffects=Opt(EFFECTS), hide=BOOL, alternatePins=List(O('SymbolAlternativePin'))), _pin)


def symid(o):
    if o.libraryNickname:
        return '%s:%s' % (o.libraryNickname, o.entryName)
    return o.entryName if o.unitId is None or o.styleId is None else '%s_%s_%s' % (o.entryName, o.unitId, o.styleId)


YN = {True: 'yes', False: 'no', None: None}


def _symbol(o):
    pn = None
    if o.pinNames:
        pn = T('pin_names', opt('offset', o.pinNamesOffset), 'hide' if o.pinNamesHide else None)
    return T('symbol', Q(symid(o)), opt('extends', o.extends, True), flag('power', o.isPower),
             T('pin_numbers', 'hide') if o.hidePinNumbers else None, pn, opt('in_bom', YN[o.inBom]), opt('on_board', YN[o.onBoard]),
             [NL(build(x)) for x in o.properties], [NL(gitem(x, 'sy')) for x in o.graphicItems], [NL(build(x)) for x in o.pins],
             [NL(build(x)) for x in o.units], close=0)


class Units(List):
    def gen(self, c):
        if c.depth > 50:        # inside a unit
            return []
        c.depth += 100
        n = c.rng.choice([0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 5]) if c.rng.random() < 0.98 else 12
        out = [gen(c, 'Symbol') for _ in range(n)]
        c.depth -= 100
        return out


def _symbol_tune(c, o):
    if not o.pinNames:
        o.f['pinNamesHide'], o.f['pinNamesOffset'] = False, None
    for u in o.units:
        u.f['libraryNickname'], u.f['entryName'] = None, o.entryName
        u.f['unitId'], u.f['styleId'] = c.integer(0, 12), c.integer(0, 3)


SYALL = ('SyArc', 'SyCircle', 'SyCurve', 'SyPolyLine', 'SyRect', 'SyText', 'SyTextBox')
spec('Symbol', 'symbol', dict(
    libraryNickname=Opt(Nick()), entryName=Entry(True), unitId=Const(None), styleId=Const(None), extends=OTEXT, hidePinNumbers=BOOL,
    pinNames=BOOL, pinNamesHide=BOOL, pinNamesOffset=ONUM, inBom=Opt(BOOL), onBoard=Opt(BOOL), isPower=BOOL,
    properties=List(PROPERTY), graphicItems=List(U(*SYALL)), pins=List(O('SymbolPin')), units=Units(O('Symbol'))), _symbol, _symbol_tune)
SPECS['Symbol'].fields['unitId'] = Opt(Int(0, 99), 1.1)
SPECS['Symbol'].fields['styleId'] = Opt(Int(0, 99), 1.1)
spec('SymbolLib', 'symbol', dict(version=VER, generator=Opt(GENR), symbols=List(O('Symbol', libraryNickname=Const(None), entryName=TopEntry()))),
     lambda o: T('kicad_symbol_lib', T('version', o.version), opt('generator', o.generator), [NL(build(x)) for x in o.symbols], close=0))

# ================================================================================ items/schitems.py
UU = OATOM


def uu(o):
    return NL(opt('uuid', o.uuid))


def auto(o):
    return flag('fields_autoplaced', o.fieldsAutoplaced)


spec('Junction', 'items.schitems', dict(position=XY, diameter=NUM, color=COLOR, uuid=UU),
     lambda o: T('junction', xy('at', o.position), T('diameter', o.diameter), build(o.color), uu(o),
                 close=0 if o.uuid is not None else (0,)))
spec('NoConnect', 'items.schitems', dict(position=XY, uuid=UU), lambda o: T('no_connect', xy('at', o.position), opt('uuid', o.uuid)))
spec('BusEntry', 'items.schitems', dict(position=XY, uuid=UU, size=XY, stroke=STROKE),
     lambda o: T('bus_entry', xy('at', o.position), xy('size', o.size), NL(build(o.stroke)), uu(o), close=0))
spec('BusAlias', 'items.schitems', dict(name=TEXT, members=List(TEXT)),
     lambda o: T('bus_alias', Q(o.name), T('members', [Q(m) for m in o.members], close=None if o.members else ' '), fixed=True, closed=True))


def _wire(o):
    return T(getattr(o, 'type', 'polyline') if o.cls == 'Connection' else 'polyline',
             T('pts', [xy('xy', p) for p in o.points], closed=True), NL(build(o.stroke)), uu(o), close=0, group='wire')


spec('Connection', 'items.schitems', dict(type=Enum('wire', 'bus'), points=List(XY), stroke=STROKE, uuid=UU), _wire)
spec('PolyLine', 'items.schitems', dict(points=List(XY), stroke=STROKE, uuid=UU), _wire)
spec('Text', 'items.schitems', dict(text=TEXT, position=XYA, effects=EFFECTS, uuid=UU),
     lambda o: T('text', Q(o.text), NL(xya('at', o.position)) if len(o.text) >= 50 else xya('at', o.position), NL(build(o.effects)),
                 uu(o), close=0))
spec('TextBox', 'items.schitems', dict(_SF, text=TEXT, position=XYA, size=XY, effects=EFFECTS, uuid=UU),
     lambda o: T('text_box', Q(o.text), line(xya('at', o.position), xy('size', o.size)), sf(o), NL(build(o.effects)), uu(o), close=0))
spec('LocalLabel', 'items.schitems', dict(text=TEXT, position=XYA, effects=EFFECTS, uuid=UU, fieldsAutoplaced=BOOL),
     lambda o: T('label', Q(o.text), xya('at', o.position), auto(o), NL(build(o.effects)), uu(o), close=0))
SHAPE = Word('input', 'output', 'bidirectional', 'tri_state', 'passive')
spec('GlobalLabel', 'items.schitems', dict(text=TEXT, shape=SHAPE, fieldsAutoplaced=BOOL, position=XYA, effects=EFFECTS, uuid=UU,
                                           properties=List(PROPERTY)),
     lambda o: T('global_label', Q(o.text), T('shape', o.shape), xya('at', o.position), auto(o), NL(build(o.effects)), uu(o),
                 [NL(build(p)) for p in o.properties], close=0))
spec('HierarchicalLabel', 'items.schitems', dict(text=TEXT, shape=SHAPE, position=XYA, effects=EFFECTS, uuid=UU, fieldsAutoplaced=BOOL),
     lambda o: T('hierarchical_label', Q(o.text), T('shape', o.shape), xya('at', o.position), auto(o), NL(build(o.effects)), uu(o),
                 close=0))
spec('SymbolProjectPath', 'items.schitems', dict(sheetInstancePath=TEXT, reference=TEXT, unit=Int(0, 20)),
     lambda o: T('path', Q(o.sheetInstancePath), line(T('reference', Q(o.reference)), T('unit', o.unit)), close=0))


def _proj(o):
    return T('project', Q(o.name), [NL(build(p)) for p in o.paths], close=0)


spec('SymbolProjectInstance', 'items.schitems', dict(name=TEXT, paths=List(O('SymbolProjectPath'))), _proj)


class Uuid0(Atom):
    def gen(self, c):
        return c.atom() if c.maybe(0.2) else ''


def inst(o):
    return NL(T('instances', [NL(build(i)) for i in o.instances], close=0, closed=True) if o.instances else None)


spec('SchematicSymbol', 'items.schitems', dict(
    libraryNickname=Opt(Nick()), entryName=Entry(), libName=OTEXT, position=XYA, unit=Opt(Int(0, 20)), inBom=BOOL, onBoard=BOOL,
    dnp=Opt(BOOL), fieldsAutoplaced=BOOL, uuid=Uuid0(), properties=List(PROPERTY), pins=Dict(TEXT, ATOM),
    mirror=Opt(Word('x', 'y')), instances=List(O('SymbolProjectInstance'))),
    lambda o: T('symbol', opt('lib_name', o.libName, True), T('lib_id', Q(libid(o))), xya('at', o.position), opt('mirror', o.mirror),
                opt('unit', o.unit), line(T('in_bom', YN[o.inBom]), T('on_board', YN[o.onBoard]), opt('dnp', YN[o.dnp]), auto(o)),
                NL(opt('uuid', o.uuid or None)), [NL(build(p)) for p in o.properties],
                [NL(T('pin', Q(n), T('uuid', u), fixed=True)) for n, u in o.pins.items()], inst(o), close=0))
spec('HierarchicalPin', 'items.schitems', dict(name=TEXT, connectionType=SHAPE, position=XYA, effects=EFFECTS, uuid=UU),
     lambda o: T('pin', Q(o.name), o.connectionType, xya('at', o.position), NL(build(o.effects)), uu(o), close=0))
spec('HierarchicalSheetProjectPath', 'items.schitems', dict(sheetInstancePath=TEXT, page=TEXT),
     lambda o: T('path', Q(o.sheetInstancePath), T('page', Q(o.page))))
spec('HierarchicalSheetProjectInstance', 'items.schitems', dict(name=TEXT, paths=List(O('HierarchicalSheetProjectPath'))), _proj)


def _sheet_tune(c, o):
    for p in o.properties:
        if p.key in ('Sheet name', 'Sheetname', 'Sheet file', 'Sheetfile'):
            p.f['key'] = 'Other'


spec('HierarchicalSheet', 'items.schitems', dict(
    position=XY, width=NUM, height=NUM, fieldsAutoplaced=BOOL, stroke=STROKE, fill=O('ColorRGBA', A=Dec(4), precision=Const(4)),
    uuid=UU, sheetName=O('Property', key=Enum('Sheet name', 'Sheetname')), fileName=O('Property', key=Enum('Sheet file', 'Sheetfile')),
    properties=List(PROPERTY), pins=List(O('HierarchicalPin')), instances=List(O('HierarchicalSheetProjectInstance'))),
    lambda o: T('sheet', xy('at', o.position), T('size', o.width, o.height), auto(o), NL(build(o.stroke)),
                NL(T('fill', build(o.fill), fixed=True)), uu(o), NL(gitem(o.sheetName, 'sheet name')), NL(gitem(o.fileName, 'sheet file')),
                [NL(build(p)) for p in o.properties], [NL(build(p)) for p in o.pins], inst(o), close=0), _sheet_tune)
spec('HierarchicalSheetInstance', 'items.schitems', dict(instancePath=TEXT, page=TEXT),
     lambda o: T('path', Q(o.instancePath), T('page', Q(o.page))))
spec('SymbolInstance', 'items.schitems', dict(path=TEXT, reference=TEXT, unit=Int(0, 20), value=TEXT, footprint=TEXT),
     lambda o: T('path', Q(o.path), line(T('reference', Q(o.reference)), T('unit', o.unit), T('value', Q(o.value)),
                                         T('footprint', Q(o.footprint))), close=0))


def _shape(head, *geo):
    def b(o):
        return T(head, [xy(g, getattr(o, g)) if g != 'radius' else T(g, o.radius) for g in geo], sf(o), uu(o), close=0, group='shape')
    return b


spec('Rectangle', 'items.schitems', dict(_SF, start=XY, end=XY, uuid=UU), _shape('rectangle', 'start', 'end'))
spec('SchArc', 'items.schitems', dict(_SF, start=XY, mid=XY, end=XY, uuid=UU), _shape('arc', 'start', 'mid', 'end'), pyname='Arc')
spec('Circle', 'items.schitems', dict(_SF, center=XY, radius=NUM, uuid=UU), _shape('circle', 'center', 'radius'))
spec('NetclassFlag', 'items.schitems', dict(
    text=TEXT, length=NUM, shape=Word('round', 'dot', 'diamond', 'rectangle'), position=XYA, effects=EFFECTS, properties=List(PROPERTY),
    uuid=UU, fieldsAutoplaced=BOOL),
    lambda o: T('netclass_flag', Q(o.text), T('length', o.length), T('shape', o.shape), xya('at', o.position), auto(o),
                NL(build(o.effects)), uu(o), [NL(build(p)) for p in o.properties], close=0))

# ================================================================================ schematic.py


def _schematic(o):
    def group(items):
        return [BL] + [NL(build(x)) for x in items] if items else []

    def each(items):
        return [[BL, NL(build(x))] for x in items]
    if o.libSymbols:
        lib = [BL, NL(T('lib_symbols', [[BL if i else None, NL(build(s))] for i, s in enumerate(o.libSymbols)], close=0, closed=True))]
    else:
        lib = [NL(T('lib_symbols'))]
    return T('kicad_sch', T('version', o.version), T('generator', o.generator),
             [BL, NL(T('uuid', o.uuid)), BL] if o.uuid is not None else None, NL(build(o.paper)),
             [BL, NL(build(o.titleBlock))] if o.titleBlock else None, lib,
             group(o.junctions), group(o.noConnects), group(o.busEntries), group(o.busAliases), group(o.graphicalItems),
             group(o.shapes), group(o.images), group(o.textBoxes), group(o.texts), group(o.labels), group(o.globalLabels),
             group(o.hierarchicalLabels), group(o.netclassFlags), each(o.schematicSymbols), each(o.sheets),
             [BL, NL(T('sheet_instances', [NL(build(x)) for x in o.sheetInstances], close=0, closed=True))] if o.sheetInstances else None,
             [BL, NL(T('symbol_instances', [NL(build(x)) for x in o.symbolInstances], close=0, closed=True))] if o.symbolInstances else None,
             close=0)


spec('Schematic', 'schematic', dict(
    version=VER, generator=GENR, uuid=OATOM, paper=O('PageSettings'), titleBlock=Opt(O('TitleBlock')), libSymbols=List(O('Symbol', entryName=TopEntry()), hi=2),
    schematicSymbols=List(O('SchematicSymbol'), hi=2), junctions=List(O('Junction')), noConnects=List(O('NoConnect')),
    busEntries=List(O('BusEntry')), busAliases=List(O('BusAlias')), graphicalItems=List(U('Connection', 'PolyLine')),
    shapes=List(U('SchArc', 'Circle', 'Rectangle')), images=List(O('Image'), hi=2), texts=List(O('Text')), textBoxes=List(O('TextBox')),
    labels=List(O('LocalLabel')), globalLabels=List(O('GlobalLabel')), hierarchicalLabels=List(O('HierarchicalLabel')),
    netclassFlags=List(O('NetclassFlag')), sheets=List(O('HierarchicalSheet'), hi=2), sheetInstances=List(O('HierarchicalSheetInstance')),
    symbolInstances=List(O('SymbolInstance'))), _schematic)

# ================================================================================ libraries.py


def _lib(o):
    kids = [T('name', Q(o.name)), T('type', Q(o.type)), T('uri', Q(o.uri)), T('options', Q(o.options)), T('descr', Q(o.description))]
    if not o.active:
        kids.append(T('disabled'))
    return T('lib', kids[0], [WS('', k) for k in kids[1:]])


spec('Library', 'libraries', dict(name=TEXT, type=TEXT, uri=TEXT, options=TEXT, description=TEXT, active=BOOL), _lib)
spec('LibTable', 'libraries', dict(type=Enum('sym_lib_table', 'fp_lib_table'), libs=List(O('Library'))),
     lambda o: T(o.type, [NL(build(x)) for x in o.libs], close=0))

# ================================================================================ dru.py
class Element(Word):
    """Bare argument of a constraint: a word, or a number as in (constraint min_resolved_spokes 2)"""
    def gen(self, c):
        return c.rng.choice([0, 1, 2, 4, c.integer(0, 100)]) if c.rng.random() < 0.2 else Word.gen(self, c)

    def diff(self, r, v, path):
        if isinstance(r, bool) or isinstance(r, str) != isinstance(v, str) or r != v:
            return '%s: %r expected, found %r' % (path, v, r)


spec('Constraint', 'dru', dict(type=Word('clearance', 'track_width', 'disallow', 'hole_size', 'length', 'min_resolved_spokes', 'zone_connection'), min=OTEXT, opt=OTEXT, max=OTEXT,
                               elements=List(Element('track', 'via', 'micro_via', 'pad', 'zone', 'text', 'solid', 'none'))),
     lambda o: T('constraint', o.type, opt('min', o.min, True), opt('opt', o.opt, True), opt('max', o.max, True), list(o.elements)))
spec('Rule', 'dru', dict(name=TEXT, constraints=List(O('Constraint')), condition=TEXT, layer=Opt(LAYER),
                         severity=Opt(Word('error', 'warning', 'ignore', 'exclusion'))),
     lambda o: T('rule', Q(o.name), NL(layer(o.layer)), [NL(build(x)) for x in o.constraints], NL(T('condition', Q(o.condition))),
                 NL(opt('severity', o.severity))))


def _dru(o):
    """Two or more top-level expressions; the wrapping node is not part of the file"""
    return T('', T('version', o.version), BL, [NL(build(r), 0) for r in o.rules], close='')


spec('DesignRules', 'dru', dict(version=Lax(lambda c: c.integer(0, 9)), rules=List(O('Rule'))), _dru)

# ================================================================================ wks.py
spec('WksFontSize', 'wks', dict(width=NUM, height=NUM), lambda o: T('size', o.width, o.height))


def _wksfont(o):
    if o.linewidth is None and o.size is None and not o.bold and not o.italic:
        return None
    return T('font', opt('linewidth', o.linewidth), o.size and build(o.size), 'bold' if o.bold else None, 'italic' if o.italic else None)


spec('WksFont', 'wks', dict(linewidth=ONUM, size=Opt(O('WksFontSize')), bold=BOOL, italic=BOOL), _wksfont)
spec('WksPosition', 'wks', dict(X=NUM, Y=NUM, corner=Opt(Word('ltcorner', 'lbcorner', 'rbcorner', 'rtcorner'))))
WPOS = O('WksPosition')


def wp(head, p):
    return T(head, p.X, p.Y, p.corner)


OPTION = Opt(Word('page1only', 'notonpage1'))
REP = Opt(Int(0, 100))
_WL = dict(name=TEXT, start=WPOS, end=WPOS, option=OPTION, lineWidth=ONUM, repeat=REP, incrx=ONUM, incry=ONUM, comment=OTEXT)


def _wline(head):
    return lambda o: T(head, T('name', Q(o.name)), wp('start', o.start), wp('end', o.end), opt('option', o.option),
                       opt('linewidth', o.lineWidth), opt('repeat', o.repeat), opt('incrx', o.incrx), opt('incry', o.incry),
                       opt('comment', o.comment, True), close='\n' if o.comment is not None else None, group='wks')


spec('Line', 'wks', dict(_WL), _wline('line'))
spec('Rect', 'wks', dict(_WL), _wline('rect'))
spec('Bitmap', 'wks', dict(name=TEXT, position=WPOS, option=OPTION, scale=NUM, repeat=REP, incrx=ONUM, incry=ONUM, comment=OTEXT,
                           pngdata=List(ATOM)),
     lambda o: T('bitmap', T('name', Q(o.name)), wp('pos', o.position), opt('option', o.option), T('scale', o.scale),
                 opt('repeat', o.repeat), opt('incrx', o.incrx), opt('incry', o.incry), WS('\n ', opt('comment', o.comment, True)),
                 NL(T('pngdata', [NL(T('data', Q(d))) for d in o.pngdata], close=2), 0), close=0, group='wks'))


def _tb_tune(c, o):
    j = o.justify
    if j is not None and j.horizontally is None and j.vertically is None and not j.mirror:
        o.f['justify'] = None


spec('TbText', 'wks', dict(
    text=TEXT, name=TEXT, position=WPOS, option=OPTION, rotate=ONUM, font=O('WksFont'), justify=Opt(O('Justify')), maxlen=ONUM,
    maxheight=ONUM, repeat=REP, incrx=ONUM, incry=ONUM, incrlabel=REP, comment=OTEXT),
    lambda o: T('tbtext', Q(o.text), T('name', Q(o.name)), wp('pos', o.position), opt('option', o.option), opt('rotate', o.rotate),
                build(o.font), o.justify and build(o.justify), opt('maxlen', o.maxlen), opt('maxheight', o.maxheight),
                opt('repeat', o.repeat), opt('incrx', o.incrx), opt('incry', o.incry), opt('incrlabel', o.incrlabel),
                opt('comment', o.comment, True), close='\n' if o.comment is not None else None, group='wks'), _tb_tune)
spec('TextSize', 'wks', dict(width=NUM, height=NUM), lambda o: T('textsize', o.width, o.height))
spec('Setup', 'wks', dict(textSize=O('TextSize'), lineWidth=NUM, textLineWidth=NUM, leftMargin=NUM, rightMargin=NUM, topMargin=NUM,
                          bottomMargin=NUM),
     lambda o: T('setup', build(o.textSize), WS('', T('linewidth', o.lineWidth)), WS('', T('textlinewidth', o.textLineWidth)),
                 NL(T('left_margin', o.leftMargin), 0), WS('', T('right_margin', o.rightMargin)), WS('', T('top_margin', o.topMargin)),
                 WS('', T('bottom_margin', o.bottomMargin))))
spec('WorkSheet', 'wks', dict(version=VER, generator=GENR, setup=O('Setup'), drawingObjects=List(U('Line', 'Rect', 'Bitmap', 'TbText'))),
     lambda o: T('kicad_wks', T('version', o.version), T('generator', o.generator), NL(build(o.setup)),
                 [NL(build(x)) for x in o.drawingObjects], close=0))

DOCS = ('Board', 'Footprint', 'Schematic', 'SymbolLib', 'LibTable', 'DesignRules', 'WorkSheet')

# ================================================================================ documents that fit together


def walk(v):
    """All objects inside a value"""
    if isinstance(v, Obj):
        yield v
        for x in v.f.values():
            yield from walk(x)
    elif isinstance(v, list):
        for x in v:
            yield from walk(x)
    elif isinstance(v, dict):
        for x in v.values():
            yield from walk(x)


def ids_of(o):
    return [x.f[k] for x in walk(o) for k in ('tstamp', 'uuid', 'id') if isinstance(x.f.get(k), str) and x.f[k]]


def _places(c, o):
    """Items at the same place, lines that meet or have no extent"""
    r = c.rng
    pos = [p for p in walk(o) if p.cls in ('Position', 'WksPosition')]
    for _ in range(r.randrange(0, 4) if len(pos) > 1 else 0):
        a, b = r.choice(pos), r.choice(pos)
        a.f['X'], a.f['Y'] = b.f['X'], b.f['Y']


def _fields(c, o, names):
    """The properties KiCad itself puts first"""
    r = c.rng
    for i, (p, n) in enumerate(zip(o.properties, names)):
        if r.random() < 0.9:
            p.f['key'] = n
            p.f['id'] = r.choice([p.f['id'], i])


def _value(o, key, default):
    for p in o.properties:
        if p.key == key:
            return p.value
    return default


def _link_footprint(c, o):
    r = c.rng
    texts = [x for x in o.graphicItems if x.cls == 'FpText']
    for x, t, v in zip(texts, ('reference', 'value', 'user'), (None, o.entryName, '${REFERENCE}')):
        x.f['type'] = t
        x.f['text'] = v if v and r.random() < 0.7 else x.f['text']
    for i, p in enumerate(o.pads):
        p.f['number'] = str(i + 1) if r.random() < 0.8 else p.f['number']
    nos = [p.number for p in o.pads]
    if len(nos) > 1 and r.random() < 0.5:
        o.f['netTiePadGroups'] = [', '.join(nos[:2])]
    ids = ids_of(o)
    for g in o.groups:
        if ids:
            g.f['members'] = [r.choice(ids) for _ in range(r.randrange(0, 4))]
    _places(c, o)


def _link_board(c, o):
    r = c.rng
    for i, n in enumerate(o.nets):
        n.f['number'] = i
        if i == 0 and r.random() < 0.8:
            n.f['name'] = ''
    for i, (l, (k, n)) in enumerate(zip(o.layers, [(0, 'F.Cu'), (31, 'B.Cu'), (37, 'F.SilkS'), (44, 'Edge.Cuts'), (50, 'User.1')])):
        l.f['ordinal'], l.f['name'] = k, n
    layers = [l.name for l in o.layers]
    nets = o.nets
    for x in walk(o):
        if x.cls in ('Segment', 'Via', 'Arc', 'Zone') and nets:
            n = r.choice(nets)
            x.f['net'] = n.number
            if x.cls == 'Zone':
                x.f['netName'] = r.choice([n.name, n.name, n.name, '', x.netName])
        if x.cls == 'Pad' and x.net and nets:
            n = r.choice(nets)
            x.net.f['number'] = n.number
            x.net.f['name'] = r.choice([n.name, n.name, n.name, '', x.net.name])
        if layers and isinstance(x.f.get('layer'), str) and r.random() < 0.8:
            x.f['layer'] = r.choice(layers)
        if layers and x.cls == 'Zone' and r.random() < 0.5:
            x.f['layers'] = r.sample(layers, r.randrange(1, 1 + min(3, len(layers))))
    ids = ids_of(o)
    for g in o.groups:
        if ids:
            g.f['members'] = [r.choice(ids) for _ in range(r.randrange(0, 5))]
    for f in o.footprints:
        f.f['path'] = '/' + r.choice(ids) if ids and r.random() < 0.7 else f.path
    _places(c, o)


def _link_symbol(c, o):
    _fields(c, o, ('Reference', 'Value', 'Footprint', 'Datasheet', 'ki_keywords', 'ki_description', 'ki_fp_filters'))
    for p in o.properties:
        if p.key == 'Value' and c.rng.random() < 0.7:
            p.f['value'] = o.entryName
    for i, p in enumerate(o.pins):
        p.f['number'] = str(i + 1) if c.rng.random() < 0.7 else p.f['number']
    for i, u in enumerate(o.units):
        u.f['unitId'], u.f['styleId'] = (i, 1) if c.rng.random() < 0.8 else (0, i)


def _link_symbols(c, o):
    r = c.rng
    for s in o.symbols:
        if len(o.symbols) > 1 and r.random() < 0.5:
            s.f['extends'] = r.choice(o.symbols).entryName
            if r.random() < 0.7:
                s.f['units'], s.f['pins'], s.f['graphicItems'] = [], [], []


def _link_schematic(c, o):
    r = c.rng
    root = '/' + o.uuid if o.uuid and r.random() < 0.5 else ''
    for s in o.schematicSymbols:
        _fields(c, s, ('Reference', 'Value', 'Footprint', 'Datasheet'))
        if o.libSymbols:
            l = r.choice(o.libSymbols)
            if r.random() < 0.2:
                s.f['libName'] = l.entryName
            else:
                s.f['libraryNickname'], s.f['entryName'] = l.libraryNickname, l.entryName
            nos = [p.number for u in [l] + l.units for p in u.pins]
            if r.random() < 0.7:
                s.f['pins'] = {n: c.atom() for n in nos}
        for i in s.instances:
            for p in i.paths:
                p.f['sheetInstancePath'] = (root or '/') if r.random() < 0.7 else p.f['sheetInstancePath']
                p.f['reference'] = _value(s, 'Reference', p.f['reference'])
                p.f['unit'] = s.unit or 1
    syms = [s for s in o.schematicSymbols if s.uuid]
    if syms:
        for i in o.symbolInstances:
            s = r.choice(syms)
            i.f['path'] = root + '/' + s.uuid
            if r.random() < 0.7:
                i.f['reference'], i.f['value'] = _value(s, 'Reference', i.reference), _value(s, 'Value', i.value)
                i.f['footprint'], i.f['unit'] = _value(s, 'Footprint', i.footprint), s.unit or 1
    sheets = [s for s in o.sheets if s.uuid]
    for n, i in enumerate(o.sheetInstances):
        i.f['instancePath'] = '/' if n == 0 or not sheets else '/' + r.choice(sheets).uuid
        i.f['page'] = str(n + 1)
    pins = [p.name for s in o.sheets for p in s.pins]
    for l in o.labels + o.hierarchicalLabels + o.globalLabels:
        if pins and r.random() < 0.5:
            l.f['text'] = r.choice(pins)
    ends = [p for x in o.graphicalItems for p in x.points]
    for x in o.junctions + o.noConnects + o.labels:
        if ends and r.random() < 0.5:
            e = r.choice(ends)
            x.position.f['X'], x.position.f['Y'] = e.X, e.Y
    _places(c, o)


def _link_table(c, o):
    r = c.rng
    for l in o.libs:
        l.f['type'] = r.choice(['KiCad', 'Legacy', l.type])
        l.f['uri'] = '${KICAD7_SYMBOL_DIR}/%s.kicad_sym' % l.name if r.random() < 0.5 and not l.name.endswith('\\') else l.uri
    if len(o.libs) > 1 and r.random() < 0.5:
        a, b = r.sample(o.libs, 2)
        for k in r.sample(sorted(a.f), r.randrange(1, 6)):
            a.f[k] = b.f[k]


def _link_wks(c, o):
    _places(c, o)


def linked(old, f):
    def tune(c, o):
        if old:
            old(c, o)
        if c.linked:
            f(c, o)
    return tune


for _n, _f in (('Footprint', _link_footprint), ('Board', _link_board), ('Symbol', _link_symbol), ('SymbolLib', _link_symbols),
               ('Schematic', _link_schematic), ('LibTable', _link_table), ('WorkSheet', _link_wks)):
    SPECS[_n].tune = linked(SPECS[_n].tune, _f)


def doc_text(o):
    """Canonical file content"""
    if o.cls == 'DesignRules':
        s = '(version %s)\n' % o.version
        if o.rules:
            s += '\n' + ''.join(render(build(r)) + '\n' for r in o.rules)
        return s
    return render(build(o)) + '\n'


def doc_tree(o):
    if o.cls == 'DesignRules':
        return [['version', str(o.version)]] + [tree(build(r)) for r in o.rules]
    return tree(build(o))


def doc_scramble(o, rng, **kw):
    from .sx import scramble, HASH
    if o.cls == 'DesignRules':
        parts = [scramble(T('version', o.version), rng)] + [scramble(build(r), rng, **kw) for r in o.rules]
        text = rng.choice(['', '\n', '  ']) + '\n'.join(parts) + rng.choice(['', '\n'])
        return doc_text(o) if HASH.search(text) else text
    return scramble(build(o), rng, **kw)
