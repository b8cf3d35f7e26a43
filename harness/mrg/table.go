package mrg

// longhands is what each shorthand resets, written out: CSS Box, Backgrounds, Flexbox, Grid, Align, Fonts, Lists, Masking,
// Motion, Overflow, Scroll Snap, Text Decoration, Transitions, Animations, Logical Properties and the vendor extensions MDN lists.
var longhands = map[string]string{
	"-moz-outline-radius":    "-moz-outline-radius-topleft -moz-outline-radius-topright -moz-outline-radius-bottomright -moz-outline-radius-bottomleft",
	"-ms-content-zoom-limit": "-ms-content-zoom-limit-max -ms-content-zoom-limit-min",
	"-ms-content-zoom-snap":  "-ms-content-zoom-snap-type -ms-content-zoom-snap-points",
	"-ms-scroll-limit":       "-ms-scroll-limit-x-min -ms-scroll-limit-y-min -ms-scroll-limit-x-max -ms-scroll-limit-y-max",
	"-ms-scroll-snap-x":      "-ms-scroll-snap-type -ms-scroll-snap-points-x",
	"-ms-scroll-snap-y":      "-ms-scroll-snap-type -ms-scroll-snap-points-y",
	"-webkit-border-before":  "border-block-start-width border-block-start-style border-block-start-color",
	"-webkit-mask":           "-webkit-mask-image -webkit-mask-repeat -webkit-mask-attachment -webkit-mask-position -webkit-mask-origin -webkit-mask-clip",
	"-webkit-text-stroke":    "-webkit-text-stroke-width -webkit-text-stroke-color",
	"animation":              "animation-name animation-duration animation-timing-function animation-delay animation-direction animation-iteration-count animation-fill-mode animation-play-state animation-timeline",
	"animation-range":        "animation-range-start animation-range-end",
	"background":             "background-image background-position-x background-position-y background-size background-repeat background-origin background-clip background-attachment background-color",
	"background-position":    "background-position-x background-position-y",
	"border":                 "border-bottom-width border-left-width border-right-width border-top-width border-bottom-style border-left-style border-right-style border-top-style border-bottom-color border-left-color border-right-color border-top-color",
	"border-block":           "border-block-start-width border-block-end-width border-block-start-style border-block-end-style border-block-start-color border-block-end-color",
	"border-block-color":     "border-block-start-color border-block-end-color",
	"border-block-end":       "border-block-end-width border-block-end-style border-block-end-color",
	"border-block-start":     "border-block-start-width border-block-start-style border-block-start-color",
	"border-block-style":     "border-block-start-style border-block-end-style",
	"border-block-width":     "border-block-start-width border-block-end-width",
	"border-bottom":          "border-bottom-width border-bottom-style border-bottom-color",
	"border-color":           "border-bottom-color border-left-color border-right-color border-top-color",
	"border-image":           "border-image-outset border-image-repeat border-image-slice border-image-source border-image-width",
	"border-inline":          "border-inline-start-width border-inline-end-width border-inline-start-style border-inline-end-style border-inline-start-color border-inline-end-color",
	"border-inline-color":    "border-inline-start-color border-inline-end-color",
	"border-inline-end":      "border-inline-end-width border-inline-end-style border-inline-end-color",
	"border-inline-start":    "border-inline-start-width border-inline-start-style border-inline-start-color",
	"border-inline-style":    "border-inline-start-style border-inline-end-style",
	"border-inline-width":    "border-inline-start-width border-inline-end-width",
	"border-left":            "border-left-width border-left-style border-left-color",
	"border-radius":          "border-bottom-left-radius border-bottom-right-radius border-top-left-radius border-top-right-radius",
	"border-right":           "border-right-width border-right-style border-right-color",
	"border-style":           "border-bottom-style border-left-style border-right-style border-top-style",
	"border-top":             "border-top-width border-top-style border-top-color",
	"border-width":           "border-bottom-width border-left-width border-right-width border-top-width",
	"caret":                  "caret-color caret-shape",
	"column-rule":            "column-rule-color column-rule-style column-rule-width",
	"columns":                "column-width column-count",
	"contain-intrinsic-size": "contain-intrinsic-width contain-intrinsic-height",
	"container":              "container-name container-type",
	"flex":                   "flex-grow flex-shrink flex-basis",
	"flex-flow":              "flex-direction flex-wrap",
	"font":                   "font-style font-variant font-weight font-stretch font-size line-height font-family",
	"gap":                    "row-gap column-gap",
	"grid":                   "grid-template-rows grid-template-columns grid-template-areas grid-auto-rows grid-auto-columns grid-auto-flow grid-column-gap grid-row-gap column-gap row-gap",
	"grid-area":              "grid-row-start grid-column-start grid-row-end grid-column-end",
	"grid-column":            "grid-column-start grid-column-end",
	"grid-gap":               "grid-row-gap grid-column-gap",
	"grid-row":               "grid-row-start grid-row-end",
	"grid-template":          "grid-template-columns grid-template-rows grid-template-areas",
	"inset":                  "top bottom left right",
	"inset-block":            "inset-block-start inset-block-end",
	"inset-inline":           "inset-inline-start inset-inline-end",
	"list-style":             "list-style-image list-style-position list-style-type",
	"margin":                 "margin-bottom margin-left margin-right margin-top",
	"margin-block":           "margin-block-start margin-block-end",
	"margin-inline":          "margin-inline-start margin-inline-end",
	"mask":                   "mask-image mask-mode mask-repeat mask-position mask-clip mask-origin mask-size mask-composite",
	"mask-border":            "mask-border-mode mask-border-outset mask-border-repeat mask-border-slice mask-border-source mask-border-width",
	"offset":                 "offset-position offset-path offset-distance offset-anchor offset-rotate",
	"outline":                "outline-color outline-width outline-style",
	"overflow":               "overflow-x overflow-y",
	"overscroll-behavior":    "overscroll-behavior-x overscroll-behavior-y",
	"padding":                "padding-bottom padding-left padding-right padding-top",
	"padding-block":          "padding-block-start padding-block-end",
	"padding-inline":         "padding-inline-start padding-inline-end",
	"place-content":          "align-content justify-content",
	"place-items":            "align-items justify-items",
	"place-self":             "align-self justify-self",
	"scroll-margin":          "scroll-margin-bottom scroll-margin-left scroll-margin-right scroll-margin-top",
	"scroll-margin-block":    "scroll-margin-block-start scroll-margin-block-end",
	"scroll-margin-inline":   "scroll-margin-inline-start scroll-margin-inline-end",
	"scroll-padding":         "scroll-padding-bottom scroll-padding-left scroll-padding-right scroll-padding-top",
	"scroll-padding-block":   "scroll-padding-block-start scroll-padding-block-end",
	"scroll-padding-inline":  "scroll-padding-inline-start scroll-padding-inline-end",
	"scroll-timeline":        "scroll-timeline-name scroll-timeline-axis",
	"text-decoration":        "text-decoration-line text-decoration-style text-decoration-color text-decoration-thickness",
	"text-emphasis":          "text-emphasis-style text-emphasis-color",
	"transition":             "transition-delay transition-duration transition-property transition-timing-function transition-behavior",
	"view-timeline":          "view-timeline-name view-timeline-axis",
}
