//! The element and attribute names of SVG 1.1 and SVG 2, ARIA and XLink.
use oxvg_collections::{attribute::AttrId, element::ElementId, name::Prefix};

pub const ELEMENTS: &[(ElementId<'static>, &str)] = &[
    (ElementId::A, "a"),
    (ElementId::AltGlyph, "altGlyph"),
    (ElementId::AltGlyphDef, "altGlyphDef"),
    (ElementId::AltGlyphItem, "altGlyphItem"),
    (ElementId::Animate, "animate"),
    (ElementId::AnimateColor, "animateColor"),
    (ElementId::AnimateMotion, "animateMotion"),
    (ElementId::AnimateTransform, "animateTransform"),
    (ElementId::Circle, "circle"),
    (ElementId::ClipPath, "clipPath"),
    (ElementId::ColorProfile, "color-profile"),
    (ElementId::Cursor, "cursor"),
    (ElementId::Defs, "defs"),
    (ElementId::Desc, "desc"),
    (ElementId::Ellipse, "ellipse"),
    (ElementId::FeBlend, "feBlend"),
    (ElementId::FeColorMatrix, "feColorMatrix"),
    (ElementId::FeComponentTransfer, "feComponentTransfer"),
    (ElementId::FeComposite, "feComposite"),
    (ElementId::FeConvolveMatrix, "feConvolveMatrix"),
    (ElementId::FeDiffuseLighting, "feDiffuseLighting"),
    (ElementId::FeDisplacementMap, "feDisplacementMap"),
    (ElementId::FeDistantLight, "feDistantLight"),
    (ElementId::FeDropShadow, "feDropShadow"),
    (ElementId::FeFlood, "feFlood"),
    (ElementId::FeFuncA, "feFuncA"),
    (ElementId::FeFuncB, "feFuncB"),
    (ElementId::FeFuncG, "feFuncG"),
    (ElementId::FeFuncR, "feFuncR"),
    (ElementId::FeGaussianBlur, "feGaussianBlur"),
    (ElementId::FeImage, "feImage"),
    (ElementId::FeMerge, "feMerge"),
    (ElementId::FeMergeNode, "feMergeNode"),
    (ElementId::FeMorphology, "feMorphology"),
    (ElementId::FeOffset, "feOffset"),
    (ElementId::FePointLight, "fePointLight"),
    (ElementId::FeSpecularLighting, "feSpecularLighting"),
    (ElementId::FeSpotLight, "feSpotLight"),
    (ElementId::FeTile, "feTile"),
    (ElementId::FeTurbulence, "feTurbulence"),
    (ElementId::Filter, "filter"),
    (ElementId::Font, "font"),
    (ElementId::FontFace, "font-face"),
    (ElementId::FontFaceFormat, "font-face-format"),
    (ElementId::FontFaceName, "font-face-name"),
    (ElementId::FontFaceSrc, "font-face-src"),
    (ElementId::FontFaceURI, "font-face-uri"),
    (ElementId::ForeignObject, "foreignObject"),
    (ElementId::G, "g"),
    (ElementId::Glyph, "glyph"),
    (ElementId::GlyphRef, "glyphRef"),
    (ElementId::Hatch, "hatch"),
    (ElementId::HatchPath, "hatchpath"),
    (ElementId::HKern, "hkern"),
    (ElementId::Image, "image"),
    (ElementId::Line, "line"),
    (ElementId::LinearGradient, "linearGradient"),
    (ElementId::Marker, "marker"),
    (ElementId::Mask, "mask"),
    (ElementId::Metadata, "metadata"),
    (ElementId::MissingGlyph, "missing-glyph"),
    (ElementId::MPath, "mpath"),
    (ElementId::Path, "path"),
    (ElementId::Pattern, "pattern"),
    (ElementId::Polygon, "polygon"),
    (ElementId::Polyline, "polyline"),
    (ElementId::RadialGradient, "radialGradient"),
    (ElementId::Rect, "rect"),
    (ElementId::Script, "script"),
    (ElementId::Set, "set"),
    (ElementId::SolidColor, "solidColor"),
    (ElementId::Stop, "stop"),
    (ElementId::Style, "style"),
    (ElementId::Svg, "svg"),
    (ElementId::Switch, "switch"),
    (ElementId::Symbol, "symbol"),
    (ElementId::Text, "text"),
    (ElementId::TextPath, "textPath"),
    (ElementId::Title, "title"),
    (ElementId::TRef, "tref"),
    (ElementId::TSpan, "tspan"),
    (ElementId::Use, "use"),
    (ElementId::View, "view"),
    (ElementId::VKern, "vkern"),
];

pub const ATTRIBUTES: &[(AttrId<'static>, Prefix<'static>, &str)] = &[
    (AttrId::AccentHeight, Prefix::SVG, "accent-height"),
    (AttrId::Accumulate, Prefix::SVG, "accumulate"),
    (AttrId::Additive, Prefix::SVG, "additive"),
    (AttrId::Alphabetic, Prefix::SVG, "alphabetic"),
    (AttrId::Amplitude, Prefix::SVG, "amplitude"),
    (AttrId::ArabicForm, Prefix::SVG, "arabic-form"),
    (AttrId::AriaActiveDescendant, Prefix::SVG, "aria-activedescendant"),
    (AttrId::AriaAtomic, Prefix::SVG, "aria-atomic"),
    (AttrId::AriaAutocomplete, Prefix::SVG, "aria-autocomplete"),
    (AttrId::AriaBusy, Prefix::SVG, "aria-busy"),
    (AttrId::AriaChecked, Prefix::SVG, "aria-checked"),
    (AttrId::AriaColCount, Prefix::SVG, "aria-colcount"),
    (AttrId::AriaColIndex, Prefix::SVG, "aria-colindex"),
    (AttrId::AriaColSpan, Prefix::SVG, "aria-colspan"),
    (AttrId::AriaControls, Prefix::SVG, "aria-controls"),
    (AttrId::AriaCurrent, Prefix::SVG, "aria-current"),
    (AttrId::AriaDescribedBy, Prefix::SVG, "aria-describedby"),
    (AttrId::AriaDetails, Prefix::SVG, "aria-details"),
    (AttrId::AriaDisabled, Prefix::SVG, "aria-disabled"),
    (AttrId::AriaDropEffect, Prefix::SVG, "aria-dropeffect"),
    (AttrId::AriaErrorMessage, Prefix::SVG, "aria-errormessage"),
    (AttrId::AriaExpanded, Prefix::SVG, "aria-expanded"),
    (AttrId::AriaFlowTo, Prefix::SVG, "aria-flowto"),
    (AttrId::AriaGrabbed, Prefix::SVG, "aria-grabbed"),
    (AttrId::AriaHasPopup, Prefix::SVG, "aria-haspopup"),
    (AttrId::AriaHidden, Prefix::SVG, "aria-hidden"),
    (AttrId::AriaInvalid, Prefix::SVG, "aria-invalid"),
    (AttrId::AriaKeyshortcuts, Prefix::SVG, "aria-keyshortcuts"),
    (AttrId::AriaLabel, Prefix::SVG, "aria-label"),
    (AttrId::AriaLabelledBy, Prefix::SVG, "aria-labelledby"),
    (AttrId::AriaLevel, Prefix::SVG, "aria-level"),
    (AttrId::AriaLive, Prefix::SVG, "aria-live"),
    (AttrId::AriaModal, Prefix::SVG, "aria-modal"),
    (AttrId::AriaMultiline, Prefix::SVG, "aria-multiline"),
    (AttrId::AriaMultiselectable, Prefix::SVG, "aria-multiselectable"),
    (AttrId::AriaOrientation, Prefix::SVG, "aria-orientation"),
    (AttrId::AriaOwns, Prefix::SVG, "aria-owns"),
    (AttrId::AriaPlaceholder, Prefix::SVG, "aria-placeholder"),
    (AttrId::AriaPosInSet, Prefix::SVG, "aria-posinset"),
    (AttrId::AriaPressed, Prefix::SVG, "aria-pressed"),
    (AttrId::AriaReadonly, Prefix::SVG, "aria-readonly"),
    (AttrId::AriaRelevant, Prefix::SVG, "aria-relevant"),
    (AttrId::AriaRequired, Prefix::SVG, "aria-required"),
    (AttrId::AriaRoleDescription, Prefix::SVG, "aria-roledescription"),
    (AttrId::AriaRowCount, Prefix::SVG, "aria-rowcount"),
    (AttrId::AriaRowIndex, Prefix::SVG, "aria-rowindex"),
    (AttrId::AriaRowSpan, Prefix::SVG, "aria-rowspan"),
    (AttrId::AriaSelected, Prefix::SVG, "aria-selected"),
    (AttrId::AriaSetSize, Prefix::SVG, "aria-setsize"),
    (AttrId::AriaSort, Prefix::SVG, "aria-sort"),
    (AttrId::AriaValueMax, Prefix::SVG, "aria-valuemax"),
    (AttrId::AriaValueMin, Prefix::SVG, "aria-valuemin"),
    (AttrId::AriaValueNow, Prefix::SVG, "aria-valuenow"),
    (AttrId::AriaValueText, Prefix::SVG, "aria-valuetext"),
    (AttrId::Ascent, Prefix::SVG, "ascent"),
    (AttrId::AttributeName, Prefix::SVG, "attributeName"),
    (AttrId::AttributeType, Prefix::SVG, "attributeType"),
    (AttrId::AutoFocus, Prefix::SVG, "autofocus"),
    (AttrId::Azimuth, Prefix::SVG, "azimuth"),
    (AttrId::BaseFrequency, Prefix::SVG, "baseFrequency"),
    (AttrId::BaseProfile, Prefix::SVG, "baseProfile"),
    (AttrId::Bbox, Prefix::SVG, "bbox"),
    (AttrId::Begin, Prefix::SVG, "begin"),
    (AttrId::Bias, Prefix::SVG, "bias"),
    (AttrId::By, Prefix::SVG, "by"),
    (AttrId::CalcMode, Prefix::SVG, "calcMode"),
    (AttrId::CapHeight, Prefix::SVG, "cap-height"),
    (AttrId::Class, Prefix::SVG, "class"),
    (AttrId::ClipPathUnits, Prefix::SVG, "clipPathUnits"),
    (AttrId::ContentScriptType, Prefix::SVG, "contentScriptType"),
    (AttrId::ContentStyleType, Prefix::SVG, "contentStyleType"),
    (AttrId::CrossOrigin, Prefix::SVG, "crossorigin"),
    (AttrId::CXGeometry, Prefix::SVG, "cx"),
    (AttrId::CXRadialGradient, Prefix::SVG, "cx"),
    (AttrId::CYGeometry, Prefix::SVG, "cy"),
    (AttrId::CYRadialGradient, Prefix::SVG, "cy"),
    (AttrId::D, Prefix::SVG, "d"),
    (AttrId::Descent, Prefix::SVG, "descent"),
    (AttrId::DiffuseConstant, Prefix::SVG, "diffuseConstant"),
    (AttrId::Divisor, Prefix::SVG, "divisor"),
    (AttrId::Download, Prefix::SVG, "download"),
    (AttrId::Dur, Prefix::SVG, "dur"),
    (AttrId::DXAltGlyph, Prefix::SVG, "dx"),
    (AttrId::DXFeDropShadow, Prefix::SVG, "dx"),
    (AttrId::DXFeOffset, Prefix::SVG, "dx"),
    (AttrId::DXGlyphRef, Prefix::SVG, "dx"),
    (AttrId::DXText, Prefix::SVG, "dx"),
    (AttrId::DXTSpan, Prefix::SVG, "dx"),
    (AttrId::DYAltGlyph, Prefix::SVG, "dy"),
    (AttrId::DYFeDropShadow, Prefix::SVG, "dy"),
    (AttrId::DYFeOffset, Prefix::SVG, "dy"),
    (AttrId::DYGlyphRef, Prefix::SVG, "dy"),
    (AttrId::DYText, Prefix::SVG, "dy"),
    (AttrId::DYTSpan, Prefix::SVG, "dy"),
    (AttrId::EdgeModeFeConvolveMatrix, Prefix::SVG, "edgeMode"),
    (AttrId::EdgeModeFeGaussianBlur, Prefix::SVG, "edgeMode"),
    (AttrId::Elevation, Prefix::SVG, "elevation"),
    (AttrId::End, Prefix::SVG, "end"),
    (AttrId::Exponent, Prefix::SVG, "exponent"),
    (AttrId::ExternalResourcesRequired, Prefix::SVG, "externalResourcesRequired"),
    (AttrId::FillAnimate, Prefix::SVG, "fill"),
    (AttrId::FilterRes, Prefix::SVG, "filterRes"),
    (AttrId::FilterUnits, Prefix::SVG, "filterUnits"),
    (AttrId::Format, Prefix::SVG, "format"),
    (AttrId::FR, Prefix::SVG, "fr"),
    (AttrId::From, Prefix::SVG, "from"),
    (AttrId::FX, Prefix::SVG, "fx"),
    (AttrId::FY, Prefix::SVG, "fy"),
    (AttrId::G1, Prefix::SVG, "g1"),
    (AttrId::G2, Prefix::SVG, "g2"),
    (AttrId::GlyphName, Prefix::SVG, "glyph-name"),
    (AttrId::GlyphRef, Prefix::SVG, "glyphRef"),
    (AttrId::GradientTransform, Prefix::SVG, "gradientTransform"),
    (AttrId::GradientUnits, Prefix::SVG, "gradientUnits"),
    (AttrId::Hanging, Prefix::SVG, "hanging"),
    (AttrId::HatchContentUnits, Prefix::SVG, "hatchContentUnits"),
    (AttrId::HatchUnits, Prefix::SVG, "hatchUnits"),
    (AttrId::HeightFilter, Prefix::SVG, "height"),
    (AttrId::HeightForeignObject, Prefix::SVG, "height"),
    (AttrId::HeightImage, Prefix::SVG, "height"),
    (AttrId::HeightPattern, Prefix::SVG, "height"),
    (AttrId::HeightRect, Prefix::SVG, "height"),
    (AttrId::HeightSvg, Prefix::SVG, "height"),
    (AttrId::HeightSymbol, Prefix::SVG, "height"),
    (AttrId::HeightUse, Prefix::SVG, "height"),
    (AttrId::HeightFe, Prefix::SVG, "height"),
    (AttrId::HeightMask, Prefix::SVG, "height"),
    (AttrId::HorizAdvX, Prefix::SVG, "horiz-adv-x"),
    (AttrId::HorizOriginX, Prefix::SVG, "horiz-origin-x"),
    (AttrId::HorizOriginY, Prefix::SVG, "horiz-origin-y"),
    (AttrId::Href, Prefix::SVG, "href"),
    (AttrId::Hreflang, Prefix::SVG, "hreflang"),
    (AttrId::Id, Prefix::SVG, "id"),
    (AttrId::Ideographic, Prefix::SVG, "ideographic"),
    (AttrId::In, Prefix::SVG, "in"),
    (AttrId::In2, Prefix::SVG, "in2"),
    (AttrId::Intercept, Prefix::SVG, "intercept"),
    (AttrId::K, Prefix::SVG, "k"),
    (AttrId::K1, Prefix::SVG, "k1"),
    (AttrId::K2, Prefix::SVG, "k2"),
    (AttrId::K3, Prefix::SVG, "k3"),
    (AttrId::K4, Prefix::SVG, "k4"),
    (AttrId::KernelMatrix, Prefix::SVG, "kernelMatrix"),
    (AttrId::KernelUnitLength, Prefix::SVG, "kernelUnitLength"),
    (AttrId::KeyPoints, Prefix::SVG, "keyPoints"),
    (AttrId::KeySplines, Prefix::SVG, "keySplines"),
    (AttrId::KeyTimes, Prefix::SVG, "keyTimes"),
    (AttrId::Lang, Prefix::SVG, "lang"),
    (AttrId::LengthAdjust, Prefix::SVG, "lengthAdjust"),
    (AttrId::LimitingConeAngle, Prefix::SVG, "limitingConeAngle"),
    (AttrId::Local, Prefix::SVG, "local"),
    (AttrId::MarkerHeight, Prefix::SVG, "markerHeight"),
    (AttrId::MarkerUnits, Prefix::SVG, "markerUnits"),
    (AttrId::MarkerWidth, Prefix::SVG, "markerWidth"),
    (AttrId::MaskContentUnits, Prefix::SVG, "maskContentUnits"),
    (AttrId::MaskUnits, Prefix::SVG, "maskUnits"),
    (AttrId::Mathematical, Prefix::SVG, "mathematical"),
    (AttrId::Max, Prefix::SVG, "max"),
    (AttrId::Media, Prefix::SVG, "media"),
    (AttrId::Method, Prefix::SVG, "method"),
    (AttrId::Min, Prefix::SVG, "min"),
    (AttrId::Mode, Prefix::SVG, "mode"),
    (AttrId::NameColorProfile, Prefix::SVG, "name"),
    (AttrId::NameFontFace, Prefix::SVG, "name"),
    (AttrId::NumOctaves, Prefix::SVG, "numOctaves"),
    (AttrId::OffsetStop, Prefix::SVG, "offset"),
    (AttrId::OffsetFe, Prefix::SVG, "offset"),
    (AttrId::OffsetHatchPath, Prefix::SVG, "offset"),
    (AttrId::OnAbort, Prefix::SVG, "onabort"),
    (AttrId::OnActivate, Prefix::SVG, "onactivate"),
    (AttrId::OnBegin, Prefix::SVG, "onbegin"),
    (AttrId::OnCancel, Prefix::SVG, "oncancel"),
    (AttrId::OnCanplay, Prefix::SVG, "oncanplay"),
    (AttrId::OnCanplaythrough, Prefix::SVG, "oncanplaythrough"),
    (AttrId::OnChange, Prefix::SVG, "onchange"),
    (AttrId::OnClick, Prefix::SVG, "onclick"),
    (AttrId::OnClose, Prefix::SVG, "onclose"),
    (AttrId::OnCopy, Prefix::SVG, "oncopy"),
    (AttrId::OnCuechange, Prefix::SVG, "oncuechange"),
    (AttrId::OnCut, Prefix::SVG, "oncut"),
    (AttrId::OnDblclick, Prefix::SVG, "ondblclick"),
    (AttrId::OnDrag, Prefix::SVG, "ondrag"),
    (AttrId::OnDragend, Prefix::SVG, "ondragend"),
    (AttrId::OnDragenter, Prefix::SVG, "ondragenter"),
    (AttrId::OnDragexit, Prefix::SVG, "ondragexit"),
    (AttrId::OnDragleave, Prefix::SVG, "ondragleave"),
    (AttrId::OnDragover, Prefix::SVG, "ondragover"),
    (AttrId::OnDragstart, Prefix::SVG, "ondragstart"),
    (AttrId::OnDrop, Prefix::SVG, "ondrop"),
    (AttrId::OnDurationchange, Prefix::SVG, "ondurationchange"),
    (AttrId::OnEmptied, Prefix::SVG, "onemptied"),
    (AttrId::OnEnd, Prefix::SVG, "onend"),
    (AttrId::OnEnded, Prefix::SVG, "onended"),
    (AttrId::OnError, Prefix::SVG, "onerror"),
    (AttrId::OnFocusIn, Prefix::SVG, "onfocusin"),
    (AttrId::OnFocusOut, Prefix::SVG, "onfocusout"),
    (AttrId::OnFocus, Prefix::SVG, "onfocus"),
    (AttrId::OnInput, Prefix::SVG, "oninput"),
    (AttrId::OnInvalid, Prefix::SVG, "oninvalid"),
    (AttrId::OnKeydown, Prefix::SVG, "onkeydown"),
    (AttrId::OnKeypress, Prefix::SVG, "onkeypress"),
    (AttrId::OnKeyup, Prefix::SVG, "onkeyup"),
    (AttrId::OnLoad, Prefix::SVG, "onload"),
    (AttrId::OnLoadeddata, Prefix::SVG, "onloadeddata"),
    (AttrId::OnLoadedmetadata, Prefix::SVG, "onloadedmetadata"),
    (AttrId::OnLoadstart, Prefix::SVG, "onloadstart"),
    (AttrId::OnMousedown, Prefix::SVG, "onmousedown"),
    (AttrId::OnMouseenter, Prefix::SVG, "onmouseenter"),
    (AttrId::OnMouseleave, Prefix::SVG, "onmouseleave"),
    (AttrId::OnMousemove, Prefix::SVG, "onmousemove"),
    (AttrId::OnMouseout, Prefix::SVG, "onmouseout"),
    (AttrId::OnMouseover, Prefix::SVG, "onmouseover"),
    (AttrId::OnMouseup, Prefix::SVG, "onmouseup"),
    (AttrId::OnPaste, Prefix::SVG, "onpaste"),
    (AttrId::OnPause, Prefix::SVG, "onpause"),
    (AttrId::OnPlay, Prefix::SVG, "onplay"),
    (AttrId::OnPlaying, Prefix::SVG, "onplaying"),
    (AttrId::OnProgress, Prefix::SVG, "onprogress"),
    (AttrId::OnRatechange, Prefix::SVG, "onratechange"),
    (AttrId::OnRepeat, Prefix::SVG, "onrepeat"),
    (AttrId::OnReset, Prefix::SVG, "onreset"),
    (AttrId::OnResize, Prefix::SVG, "onresize"),
    (AttrId::OnScroll, Prefix::SVG, "onscroll"),
    (AttrId::OnSeeked, Prefix::SVG, "onseeked"),
    (AttrId::OnSeeking, Prefix::SVG, "onseeking"),
    (AttrId::OnSelect, Prefix::SVG, "onselect"),
    (AttrId::OnShow, Prefix::SVG, "onshow"),
    (AttrId::OnStalled, Prefix::SVG, "onstalled"),
    (AttrId::OnSubmit, Prefix::SVG, "onsubmit"),
    (AttrId::OnSuspend, Prefix::SVG, "onsuspend"),
    (AttrId::OnTimeupdate, Prefix::SVG, "ontimeupdate"),
    (AttrId::OnToggle, Prefix::SVG, "ontoggle"),
    (AttrId::OnUnload, Prefix::SVG, "onunload"),
    (AttrId::OnVolumechange, Prefix::SVG, "onvolumechange"),
    (AttrId::OnWaiting, Prefix::SVG, "onwaiting"),
    (AttrId::OnWheel, Prefix::SVG, "onwheel"),
    (AttrId::OnZoom, Prefix::SVG, "onzoom"),
    (AttrId::OperatorFeComposite, Prefix::SVG, "operator"),
    (AttrId::OperatorFeMorphology, Prefix::SVG, "operator"),
    (AttrId::Order, Prefix::SVG, "order"),
    (AttrId::Orient, Prefix::SVG, "orient"),
    (AttrId::Orientation, Prefix::SVG, "orientation"),
    (AttrId::Origin, Prefix::SVG, "origin"),
    (AttrId::OverlinePosition, Prefix::SVG, "overline-position"),
    (AttrId::OverlineThickness, Prefix::SVG, "overline-thickness"),
    (AttrId::Panose1, Prefix::SVG, "panose-1"),
    (AttrId::Path, Prefix::SVG, "path"),
    (AttrId::PathLength, Prefix::SVG, "pathLength"),
    (AttrId::PatternContentUnits, Prefix::SVG, "patternContentUnits"),
    (AttrId::PatternTransform, Prefix::SVG, "patternTransform"),
    (AttrId::PatternUnits, Prefix::SVG, "patternUnits"),
    (AttrId::Ping, Prefix::SVG, "ping"),
    (AttrId::Pitch, Prefix::SVG, "pitch"),
    (AttrId::Playbackorder, Prefix::SVG, "playbackorder"),
    (AttrId::Points, Prefix::SVG, "points"),
    (AttrId::PointsAtX, Prefix::SVG, "pointsAtX"),
    (AttrId::PointsAtY, Prefix::SVG, "pointsAtY"),
    (AttrId::PointsAtZ, Prefix::SVG, "pointsAtZ"),
    (AttrId::PreserveAlpha, Prefix::SVG, "preserveAlpha"),
    (AttrId::PreserveAspectRatio, Prefix::SVG, "preserveAspectRatio"),
    (AttrId::PrimitiveUnits, Prefix::SVG, "primitiveUnits"),
    (AttrId::Radius, Prefix::SVG, "radius"),
    (AttrId::ReferrerPolicy, Prefix::SVG, "referrerpolicy"),
    (AttrId::RefX, Prefix::SVG, "refX"),
    (AttrId::RefY, Prefix::SVG, "refY"),
    (AttrId::Rel, Prefix::SVG, "rel"),
    (AttrId::RenderingIntent, Prefix::SVG, "rendering-intent"),
    (AttrId::RepeatCount, Prefix::SVG, "repeatCount"),
    (AttrId::RepeatDur, Prefix::SVG, "repeatDur"),
    (AttrId::RequiredExtensions, Prefix::SVG, "requiredExtensions"),
    (AttrId::RequiredFeatures, Prefix::SVG, "requiredFeatures"),
    (AttrId::Restart, Prefix::SVG, "restart"),
    (AttrId::Result, Prefix::SVG, "result"),
    (AttrId::Role, Prefix::SVG, "role"),
    (AttrId::RotateText, Prefix::SVG, "rotate"),
    (AttrId::RotateAnimate, Prefix::SVG, "rotate"),
    (AttrId::RotateHatch, Prefix::SVG, "rotate"),
    (AttrId::RX, Prefix::SVG, "rx"),
    (AttrId::RY, Prefix::SVG, "ry"),
    (AttrId::RGeometry, Prefix::SVG, "r"),
    (AttrId::RRadialGradient, Prefix::SVG, "r"),
    (AttrId::Scale, Prefix::SVG, "scale"),
    (AttrId::Seed, Prefix::SVG, "seed"),
    (AttrId::Side, Prefix::SVG, "side"),
    (AttrId::SlopeFont, Prefix::SVG, "slope"),
    (AttrId::SlopeFe, Prefix::SVG, "slope"),
    (AttrId::SolidColor, Prefix::SVG, "solid-color"),
    (AttrId::SolidOpacity, Prefix::SVG, "solid-opacity"),
    (AttrId::Spacing, Prefix::SVG, "spacing"),
    (AttrId::SpecularConstant, Prefix::SVG, "specularConstant"),
    (AttrId::SpecularExponent, Prefix::SVG, "specularExponent"),
    (AttrId::SpreadMethod, Prefix::SVG, "spreadMethod"),
    (AttrId::StartOffset, Prefix::SVG, "startOffset"),
    (AttrId::StdDeviationFeDropShadow, Prefix::SVG, "stdDeviation"),
    (AttrId::StdDeviationFeGaussianBlur, Prefix::SVG, "stdDeviation"),
    (AttrId::Stemh, Prefix::SVG, "stemh"),
    (AttrId::Stemv, Prefix::SVG, "stemv"),
    (AttrId::StitchTiles, Prefix::SVG, "stitchTiles"),
    (AttrId::StrikethroughPosition, Prefix::SVG, "strikethrough-position"),
    (AttrId::StrikethroughThickness, Prefix::SVG, "strikethrough-thickness"),
    (AttrId::String, Prefix::SVG, "string"),
    (AttrId::Style, Prefix::SVG, "style"),
    (AttrId::SurfaceScale, Prefix::SVG, "surfaceScale"),
    (AttrId::SystemLanguage, Prefix::SVG, "systemLanguage"),
    (AttrId::Tabindex, Prefix::SVG, "tabindex"),
    (AttrId::TableValues, Prefix::SVG, "tableValues"),
    (AttrId::Target, Prefix::SVG, "target"),
    (AttrId::TargetX, Prefix::SVG, "targetX"),
    (AttrId::TargetY, Prefix::SVG, "targetY"),
    (AttrId::TextLength, Prefix::SVG, "textLength"),
    (AttrId::Timelinebegin, Prefix::SVG, "timelinebegin"),
    (AttrId::Title, Prefix::SVG, "title"),
    (AttrId::To, Prefix::SVG, "to"),
    (AttrId::TypeA, Prefix::SVG, "type"),
    (AttrId::TypeAnimateTransform, Prefix::SVG, "type"),
    (AttrId::TypeFeColorMatrix, Prefix::SVG, "type"),
    (AttrId::TypeFeFunc, Prefix::SVG, "type"),
    (AttrId::TypeFeTurbulence, Prefix::SVG, "type"),
    (AttrId::TypeScript, Prefix::SVG, "type"),
    (AttrId::TypeStyle, Prefix::SVG, "type"),
    (AttrId::U1, Prefix::SVG, "u1"),
    (AttrId::U2, Prefix::SVG, "u2"),
    (AttrId::UnderlinePosition, Prefix::SVG, "underline-position"),
    (AttrId::UnderlineThickness, Prefix::SVG, "underline-thickness"),
    (AttrId::Unicode, Prefix::SVG, "unicode"),
    (AttrId::UnicodeRange, Prefix::SVG, "unicode-range"),
    (AttrId::UnitsPerEm, Prefix::SVG, "units-per-em"),
    (AttrId::VAlphabetic, Prefix::SVG, "v-alphabetic"),
    (AttrId::VHanging, Prefix::SVG, "v-hanging"),
    (AttrId::VIdeographic, Prefix::SVG, "v-ideographic"),
    (AttrId::VMathematical, Prefix::SVG, "v-mathematical"),
    (AttrId::ValuesFeColorMatrix, Prefix::SVG, "values"),
    (AttrId::ValuesAnimate, Prefix::SVG, "values"),
    (AttrId::Version, Prefix::SVG, "version"),
    (AttrId::VertAdvY, Prefix::SVG, "vert-adv-y"),
    (AttrId::VertOriginX, Prefix::SVG, "vert-origin-x"),
    (AttrId::VertOriginY, Prefix::SVG, "vert-origin-y"),
    (AttrId::ViewBox, Prefix::SVG, "viewBox"),
    (AttrId::ViewTarget, Prefix::SVG, "viewTarget"),
    (AttrId::WidthFilter, Prefix::SVG, "width"),
    (AttrId::WidthForeignObject, Prefix::SVG, "width"),
    (AttrId::WidthImage, Prefix::SVG, "width"),
    (AttrId::WidthPattern, Prefix::SVG, "width"),
    (AttrId::WidthRect, Prefix::SVG, "width"),
    (AttrId::WidthSvg, Prefix::SVG, "width"),
    (AttrId::WidthSymbol, Prefix::SVG, "width"),
    (AttrId::WidthUse, Prefix::SVG, "width"),
    (AttrId::WidthFe, Prefix::SVG, "width"),
    (AttrId::WidthMask, Prefix::SVG, "width"),
    (AttrId::Widths, Prefix::SVG, "widths"),
    (AttrId::XAltGlyph, Prefix::SVG, "x"),
    (AttrId::XCursor, Prefix::SVG, "x"),
    (AttrId::XFe, Prefix::SVG, "x"),
    (AttrId::XFePointLight, Prefix::SVG, "x"),
    (AttrId::XFeSpotLight, Prefix::SVG, "x"),
    (AttrId::XFilter, Prefix::SVG, "x"),
    (AttrId::XGeometry, Prefix::SVG, "x"),
    (AttrId::XGlyphRef, Prefix::SVG, "x"),
    (AttrId::XHatch, Prefix::SVG, "x"),
    (AttrId::XMask, Prefix::SVG, "x"),
    (AttrId::XPattern, Prefix::SVG, "x"),
    (AttrId::XText, Prefix::SVG, "x"),
    (AttrId::XTRef, Prefix::SVG, "x"),
    (AttrId::XHeight, Prefix::SVG, "x-height"),
    (AttrId::X1Line, Prefix::SVG, "x1"),
    (AttrId::X1LinearGradient, Prefix::SVG, "x1"),
    (AttrId::X2Line, Prefix::SVG, "x2"),
    (AttrId::X2LinearGradient, Prefix::SVG, "x2"),
    (AttrId::XChannelSelector, Prefix::SVG, "xChannelSelector"),
    (AttrId::XLinkActuate, Prefix::XLink, "actuate"),
    (AttrId::XLinkArcrole, Prefix::XLink, "arcrole"),
    (AttrId::XLinkHref, Prefix::XLink, "href"),
    (AttrId::XLinkRole, Prefix::XLink, "role"),
    (AttrId::XLinkTitle, Prefix::XLink, "title"),
    (AttrId::XLinkType, Prefix::XLink, "type"),
    (AttrId::XLinkShow, Prefix::XLink, "show"),
    (AttrId::XMLNS, Prefix::SVG, "xmlns"),
    (AttrId::XmlBase, Prefix::XML, "base"),
    (AttrId::XmlLang, Prefix::XML, "lang"),
    (AttrId::XmlSpace, Prefix::XML, "space"),
    (AttrId::YAltGlyph, Prefix::SVG, "y"),
    (AttrId::YCursor, Prefix::SVG, "y"),
    (AttrId::YFe, Prefix::SVG, "y"),
    (AttrId::YFePointLight, Prefix::SVG, "y"),
    (AttrId::YFeSpotLight, Prefix::SVG, "y"),
    (AttrId::YFilter, Prefix::SVG, "y"),
    (AttrId::YGeometry, Prefix::SVG, "y"),
    (AttrId::YGlyphRef, Prefix::SVG, "y"),
    (AttrId::YHatch, Prefix::SVG, "y"),
    (AttrId::YMask, Prefix::SVG, "y"),
    (AttrId::YPattern, Prefix::SVG, "y"),
    (AttrId::YText, Prefix::SVG, "y"),
    (AttrId::YTRef, Prefix::SVG, "y"),
    (AttrId::Y1Line, Prefix::SVG, "y1"),
    (AttrId::Y1LinearGradient, Prefix::SVG, "y1"),
    (AttrId::Y2Line, Prefix::SVG, "y2"),
    (AttrId::Y2LinearGradient, Prefix::SVG, "y2"),
    (AttrId::YChannelSelector, Prefix::SVG, "yChannelSelector"),
    (AttrId::ZFe, Prefix::SVG, "z"),
    (AttrId::ZoomAndPan, Prefix::SVG, "zoomAndPan"),
    (AttrId::AlignmentBaseline, Prefix::SVG, "alignment-baseline"),
    (AttrId::BaselineShift, Prefix::SVG, "baseline-shift"),
    (AttrId::Clip, Prefix::SVG, "clip"),
    (AttrId::ClipPath, Prefix::SVG, "clip-path"),
    (AttrId::ClipRule, Prefix::SVG, "clip-rule"),
    (AttrId::Color, Prefix::SVG, "color"),
    (AttrId::ColorInterpolation, Prefix::SVG, "color-interpolation"),
    (AttrId::ColorInterpolationFilters, Prefix::SVG, "color-interpolation-filters"),
    (AttrId::ColorProfile, Prefix::SVG, "color-profile"),
    (AttrId::ColorRendering, Prefix::SVG, "color-rendering"),
    (AttrId::Cursor, Prefix::SVG, "cursor"),
    (AttrId::Direction, Prefix::SVG, "direction"),
    (AttrId::Display, Prefix::SVG, "display"),
    (AttrId::DominantBaseline, Prefix::SVG, "dominant-baseline"),
    (AttrId::EnableBackground, Prefix::SVG, "enable-background"),
    (AttrId::Fill, Prefix::SVG, "fill"),
    (AttrId::FillOpacity, Prefix::SVG, "fill-opacity"),
    (AttrId::FillRule, Prefix::SVG, "fill-rule"),
    (AttrId::Filter, Prefix::SVG, "filter"),
    (AttrId::FloodColor, Prefix::SVG, "flood-color"),
    (AttrId::FloodOpacity, Prefix::SVG, "flood-opacity"),
    (AttrId::Font, Prefix::SVG, "font"),
    (AttrId::FontFamily, Prefix::SVG, "font-family"),
    (AttrId::FontSize, Prefix::SVG, "font-size"),
    (AttrId::FontSizeAdjust, Prefix::SVG, "font-size-adjust"),
    (AttrId::FontStretch, Prefix::SVG, "font-stretch"),
    (AttrId::FontStyle, Prefix::SVG, "font-style"),
    (AttrId::FontVariant, Prefix::SVG, "font-variant"),
    (AttrId::FontWeight, Prefix::SVG, "font-weight"),
    (AttrId::GlyphOrientationHorizontal, Prefix::SVG, "glyph-orientation-horizontal"),
    (AttrId::GlyphOrientationVertical, Prefix::SVG, "glyph-orientation-vertical"),
    (AttrId::ImageRendering, Prefix::SVG, "image-rendering"),
    (AttrId::Kerning, Prefix::SVG, "kerning"),
    (AttrId::LetterSpacing, Prefix::SVG, "letter-spacing"),
    (AttrId::LightingColor, Prefix::SVG, "lighting-color"),
    (AttrId::MarkerEnd, Prefix::SVG, "marker-end"),
    (AttrId::MarkerMid, Prefix::SVG, "marker-mid"),
    (AttrId::MarkerStart, Prefix::SVG, "marker-start"),
    (AttrId::Marker, Prefix::SVG, "marker"),
    (AttrId::Mask, Prefix::SVG, "mask"),
    (AttrId::Opacity, Prefix::SVG, "opacity"),
    (AttrId::Overflow, Prefix::SVG, "overflow"),
    (AttrId::PaintOrder, Prefix::SVG, "paint-order"),
    (AttrId::PointerEvents, Prefix::SVG, "pointer-events"),
    (AttrId::ShapeRendering, Prefix::SVG, "shape-rendering"),
    (AttrId::StopColor, Prefix::SVG, "stop-color"),
    (AttrId::StopOpacity, Prefix::SVG, "stop-opacity"),
    (AttrId::Stroke, Prefix::SVG, "stroke"),
    (AttrId::StrokeDasharray, Prefix::SVG, "stroke-dasharray"),
    (AttrId::StrokeDashoffset, Prefix::SVG, "stroke-dashoffset"),
    (AttrId::StrokeLinecap, Prefix::SVG, "stroke-linecap"),
    (AttrId::StrokeLinejoin, Prefix::SVG, "stroke-linejoin"),
    (AttrId::StrokeMiterlimit, Prefix::SVG, "stroke-miterlimit"),
    (AttrId::StrokeOpacity, Prefix::SVG, "stroke-opacity"),
    (AttrId::StrokeWidth, Prefix::SVG, "stroke-width"),
    (AttrId::TextAnchor, Prefix::SVG, "text-anchor"),
    (AttrId::TextDecoration, Prefix::SVG, "text-decoration"),
    (AttrId::TextRendering, Prefix::SVG, "text-rendering"),
    (AttrId::Transform, Prefix::SVG, "transform"),
    (AttrId::TransformOrigin, Prefix::SVG, "transform-origin"),
    (AttrId::UnicodeBidi, Prefix::SVG, "unicode-bidi"),
    (AttrId::VectorEffect, Prefix::SVG, "vector-effect"),
    (AttrId::Visibility, Prefix::SVG, "visibility"),
    (AttrId::WordSpacing, Prefix::SVG, "word-spacing"),
    (AttrId::WritingMode, Prefix::SVG, "writing-mode"),
];
