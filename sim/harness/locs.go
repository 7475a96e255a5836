package main

import (
	"github.com/vorlif/spreak/humanize"
	"github.com/vorlif/spreak/humanize/locale/ar"
	"github.com/vorlif/spreak/humanize/locale/cs"
	"github.com/vorlif/spreak/humanize/locale/de"
	"github.com/vorlif/spreak/humanize/locale/enAU"
	"github.com/vorlif/spreak/humanize/locale/enGB"
	"github.com/vorlif/spreak/humanize/locale/es"
	"github.com/vorlif/spreak/humanize/locale/esAR"
	"github.com/vorlif/spreak/humanize/locale/esCO"
	"github.com/vorlif/spreak/humanize/locale/esMX"
	"github.com/vorlif/spreak/humanize/locale/esVE"
	"github.com/vorlif/spreak/humanize/locale/fr"
	"github.com/vorlif/spreak/humanize/locale/ga"
	"github.com/vorlif/spreak/humanize/locale/ja"
	"github.com/vorlif/spreak/humanize/locale/nb"
	"github.com/vorlif/spreak/humanize/locale/nn"
	"github.com/vorlif/spreak/humanize/locale/pl"
	"github.com/vorlif/spreak/humanize/locale/pt"
	"github.com/vorlif/spreak/humanize/locale/ptBR"
	"github.com/vorlif/spreak/humanize/locale/ru"
	"github.com/vorlif/spreak/humanize/locale/sr"
	"github.com/vorlif/spreak/humanize/locale/srLatn"
	"github.com/vorlif/spreak/humanize/locale/zhHans"
	"github.com/vorlif/spreak/humanize/locale/zhHant"
)

// realLocales are the shipped locales the humanizer scenarios use.
var realLocales = map[string]func() *humanize.LocaleData{
	"ar": ar.New, "cs": cs.New, "de": de.New, "en-AU": enAU.New, "en-GB": enGB.New, "es": es.New,
	"es-AR": esAR.New, "es-CO": esCO.New, "es-MX": esMX.New, "es-VE": esVE.New, "fr": fr.New,
	"ga": ga.New, "ja": ja.New, "nb": nb.New, "nn": nn.New, "pl": pl.New, "pt": pt.New,
	"pt-BR": ptBR.New, "ru": ru.New, "sr": sr.New, "sr-Latn": srLatn.New, "zh-Hans": zhHans.New, "zh-Hant": zhHant.New,
}
