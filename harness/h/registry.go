package h

// Registry lists every harness for native replay (generated by gen.sh).
var Registry = map[string]func(){
	"C01_File":               C01_File,
	"C01_Track":              C01_Track,
	"C02_Big":                C02_Big,
	"C02_Channel":            C02_Channel,
	"C02_Event":              C02_Event,
	"C02_Long":               C02_Long,
	"C02_Manufacturer":       C02_Manufacturer,
	"C02_Many":               C02_Many,
	"C02_Pair":               C02_Pair,
	"C02_Track":              C02_Track,
	"C02_Tracks":             C02_Tracks,
	"C02_Triple":             C02_Triple,
	"C03_Big":                C03_Big,
	"C03_Event":              C03_Event,
	"C03_Long":               C03_Long,
	"C03_Manufacturer":       C03_Manufacturer,
	"C03_Many":               C03_Many,
	"C03_Pair":               C03_Pair,
	"C03_PitchBend":          C03_PitchBend,
	"C03_PolyphonicPressure": C03_PolyphonicPressure,
	"C03_Tracks":             C03_Tracks,
	"C03_Triple":             C03_Triple,
	"C04_Big":                C04_Big,
	"C04_FiveBytes":          C04_FiveBytes,
	"C04_Kinds":              C04_Kinds,
	"C04_Running":            C04_Running,
	"C04_Ticks":              C04_Ticks,
	"C05_After":              C05_After,
	"C05_Big":                C05_Big,
	"C05_Cancel":             C05_Cancel,
	"C05_Divided":            C05_Divided,
	"C05_First":              C05_First,
	"C05_Omit":               C05_Omit,
	"C06_Between":            C06_Between,
	"C06_Big":                C06_Big,
	"C06_Channel":            C06_Channel,
	"C06_Event":              C06_Event,
	"C06_Full":               C06_Full,
	"C06_Header":             C06_Header,
	"C06_Long":               C06_Long,
	"C06_Made":               C06_Made,
	"C06_Manufacturer":       C06_Manufacturer,
	"C06_Pair":               C06_Pair,
	"C06_Tracks":             C06_Tracks,
	"C07_DeltaConsumes":      C07_DeltaConsumes,
	"C07_DeltaRoundTrip":     C07_DeltaRoundTrip,
	"C07_Truncated":          C07_Truncated,
	"C07_VLF":                C07_VLF,
	"C07_VLQ":                C07_VLQ,
	"C08_Bank":               C08_Bank,
	"C08_Big":                C08_Big,
	"C08_Delta":              C08_Delta,
	"C08_Empty":              C08_Empty,
	"C08_Event":              C08_Event,
	"C08_Long":               C08_Long,
	"C08_Longer":             C08_Longer,
	"C08_Manufacturer":       C08_Manufacturer,
	"C08_Many":               C08_Many,
	"C08_Pair":               C08_Pair,
	"C08_Track":              C08_Track,
	"C08_Tracks":             C08_Tracks,
	"C08_UTF8":               C08_UTF8,
	"C09_Bank":               C09_Bank,
	"C09_Big":                C09_Big,
	"C09_Blanks":             C09_Blanks,
	"C09_Comments":           C09_Comments,
	"C09_Delta":              C09_Delta,
	"C09_Empty":              C09_Empty,
	"C09_Escape":             C09_Escape,
	"C09_Event":              C09_Event,
	"C09_Line":               C09_Line,
	"C09_Long":               C09_Long,
	"C09_Longer":             C09_Longer,
	"C09_Manufacturer":       C09_Manufacturer,
	"C09_Many":               C09_Many,
	"C09_Names":              C09_Names,
	"C09_Pair":               C09_Pair,
	"C09_Text":               C09_Text,
	"C09_Track":              C09_Track,
	"C09_Tracks":             C09_Tracks,
	"C09_UTF8":               C09_UTF8,
	"C10_Big":                C10_Big,
	"C10_Keys":               C10_Keys,
	"C10_Mixed":              C10_Mixed,
	"C10_Names":              C10_Names,
	"C10_Notes":              C10_Notes,
	"C10_Others":             C10_Others,
	"C10_Running":            C10_Running,
	"C10_Sysex":              C10_Sysex,
	"C10_Tracks":             C10_Tracks,
	"C11_Any":                C11_Any,
	"C11_AnyChannels":        C11_AnyChannels,
	"C11_AnyNotes":           C11_AnyNotes,
	"C11_Between":            C11_Between,
	"C11_Big":                C11_Big,
	"C11_Changes":            C11_Changes,
	"C11_Chords":             C11_Chords,
	"C11_Division":           C11_Division,
	"C11_JSON":               C11_JSON,
	"C11_JSONTimes":          C11_JSONTimes,
	"C11_Keys":               C11_Keys,
	"C11_Late":               C11_Late,
	"C11_Long":               C11_Long,
	"C11_Others":             C11_Others,
	"C11_Pairs":              C11_Pairs,
	"C11_Repeated":           C11_Repeated,
	"C11_SMPTE":              C11_SMPTE,
	"C11_Same":               C11_Same,
	"C11_Tempo":              C11_Tempo,
	"C11_Times":              C11_Times,
	"C11_Track":              C11_Track,
	"C11_Tracks":             C11_Tracks,
	"C11_Transpose":          C11_Transpose,
	"C11_VeryLate":           C11_VeryLate,
	"C12_Any":                C12_Any,
	"C12_Bank":               C12_Bank,
	"C12_BankSecond":         C12_BankSecond,
	"C12_BankTracks":         C12_BankTracks,
	"C12_Big":                C12_Big,
	"C12_Commands":           C12_Commands,
	"C12_First":              C12_First,
	"C12_Many":               C12_Many,
	"C12_Second":             C12_Second,
	"C12_Tracks":             C12_Tracks,
	"C13_Channels":           C13_Channels,
	"C13_Format":             C13_Format,
	"C13_History":            C13_History,
	"C13_Keys":               C13_Keys,
	"C13_Many":               C13_Many,
	"C13_Parse":              C13_Parse,
	"C13_ParseAny":           C13_ParseAny,
	"C14_Big":                C14_Big,
	"C14_Controllers":        C14_Controllers,
	"C14_Others":             C14_Others,
	"C14_Selects":            C14_Selects,
	"C14_Tracks":             C14_Tracks,
	"C15_JSONBytes":          C15_JSONBytes,
	"C15_JSONHeader":         C15_JSONHeader,
	"C15_JSONInvalid":        C15_JSONInvalid,
	"C15_JSONManufacturer":   C15_JSONManufacturer,
	"C15_JSONNumber":         C15_JSONNumber,
	"C15_JSONShape":          C15_JSONShape,
	"C15_TextBytes":          C15_TextBytes,
	"C15_TextHeader":         C15_TextHeader,
	"C15_TextHex":            C15_TextHex,
	"C15_TextMissing":        C15_TextMissing,
	"C15_TextNumber":         C15_TextNumber,
	"C15_TextShape":          C15_TextShape,
	"C15_TextWithout":        C15_TextWithout,
	"C16_Big":                C16_Big,
	"C16_Fail":               C16_Fail,
	"C16_FailWith":           C16_FailWith,
	"C16_Length":             C16_Length,
	"C16_MidEvent":           C16_MidEvent,
	"C16_None":               C16_None,
	"C16_Split":              C16_Split,
	"C16_Steps":              C16_Steps,
	"C16_Trailing":           C16_Trailing,
	"C16_Truncate":           C16_Truncate,
	"C16_Twice":              C16_Twice,
	"C16_Unknown":            C16_Unknown,
	"C17_Big":                C17_Big,
	"C17_Chunks":             C17_Chunks,
	"C17_Header":             C17_Header,
	"C17_Made":               C17_Made,
	"C17_Many":               C17_Many,
	"C17_Second":             C17_Second,
	"C17_Tag":                C17_Tag,
	"C18_Bank":               C18_Bank,
	"C18_Big":                C18_Big,
	"C18_Delimiter":          C18_Delimiter,
	"C18_Delta":              C18_Delta,
	"C18_Empty":              C18_Empty,
	"C18_Event":              C18_Event,
	"C18_Long":               C18_Long,
	"C18_Manufacturer":       C18_Manufacturer,
	"C18_Pair":               C18_Pair,
	"C18_Quoted":             C18_Quoted,
	"C18_Tabular":            C18_Tabular,
	"C18_TabularLong":        C18_TabularLong,
	"C18_Text":               C18_Text,
	"C18_Ticks":              C18_Ticks,
	"C18_Track":              C18_Track,
	"C18_Tracks":             C18_Tracks,
	"C19_Any":                C19_Any,
	"C19_Big":                C19_Big,
	"C19_Long":               C19_Long,
	"C19_Manufacturer":       C19_Manufacturer,
	"C19_Pair":               C19_Pair,
	"C19_Running":            C19_Running,
	"C19_Tracks":             C19_Tracks,
	"C20_Big":                C20_Big,
	"C20_Files":              C20_Files,
	"C20_Input":              C20_Input,
	"C20_Reuse":              C20_Reuse,
	"C20_Tracks":             C20_Tracks,
	"C21_Alone":              C21_Alone,
	"C21_Events":             C21_Events,
	"C21_JSON":               C21_JSON,
	"C21_Names":              C21_Names,
	"C21_Others":             C21_Others,
	"C21_Parse":              C21_Parse,
	"C21_Text":               C21_Text,
	"C21_Transpose":          C21_Transpose,
	"C22_Apart":              C22_Apart,
	"C22_ApartJSON":          C22_ApartJSON,
	"C22_ApartText":          C22_ApartText,
	"C22_Between":            C22_Between,
	"C22_Empty":              C22_Empty,
	"C22_End":                C22_End,
	"C22_Escape":             C22_Escape,
	"C22_Inside":             C22_Inside,
	"C22_JSON":               C22_JSON,
	"C22_LongID":             C22_LongID,
	"C22_Many":               C22_Many,
	"C22_Packets":            C22_Packets,
	"C22_Terminator":         C22_Terminator,
	"C22_Text":               C22_Text,
	"C22_Two":                C22_Two,
	"C22_TwoText":            C22_TwoText,
	"C23_Decode":             C23_Decode,
	"C23_JSON":               C23_JSON,
	"C23_Length":             C23_Length,
	"C23_NotKeys":            C23_NotKeys,
	"C23_Scales":             C23_Scales,
	"C23_Text":               C23_Text,
	"C23_Transposed":         C23_Transposed,
	"C24_Added":              C24_Added,
	"C24_Controllers":        C24_Controllers,
	"C24_Events":             C24_Events,
	"C24_History":            C24_History,
	"C24_JSON":               C24_JSON,
	"C24_Lookup":             C24_Lookup,
	"C24_Names":              C24_Names,
	"C24_Near":               C24_Near,
	"C24_Some":               C24_Some,
	"C24_Unknown":            C24_Unknown,
	"C25_Big":                C25_Big,
	"C25_Delta":              C25_Delta,
	"C25_Event":              C25_Event,
	"C25_Header":             C25_Header,
	"C25_Keys":               C25_Keys,
	"C25_Late":               C25_Late,
	"C25_Long":               C25_Long,
	"C25_Longer":             C25_Longer,
	"C25_Manufacturer":       C25_Manufacturer,
	"C25_Pair":               C25_Pair,
	"C25_Running":            C25_Running,
	"C25_Ticks":              C25_Ticks,
	"C25_Track":              C25_Track,
	"C25_Tracks":             C25_Tracks,
	"C26_Bank":               C26_Bank,
	"C26_Big":                C26_Big,
	"C26_Delta":              C26_Delta,
	"C26_Event":              C26_Event,
	"C26_Header":             C26_Header,
	"C26_Long":               C26_Long,
	"C26_Manufacturer":       C26_Manufacturer,
	"C26_Many":               C26_Many,
	"C26_Pair":               C26_Pair,
	"C26_Text":               C26_Text,
	"C26_Track":              C26_Track,
	"C26_Tracks":             C26_Tracks,
	"C27_Assemble":           C27_Assemble,
	"C27_Big":                C27_Big,
	"C27_Default":            C27_Default,
	"C27_Disassemble":        C27_Disassemble,
	"C27_Export":             C27_Export,
	"C27_Header":             C27_Header,
	"C27_Invalid":            C27_Invalid,
	"C27_Missing":            C27_Missing,
	"C27_Names":              C27_Names,
	"C27_Notes":              C27_Notes,
	"C27_Overwrite":          C27_Overwrite,
	"C27_Source":             C27_Source,
	"C27_Split":              C27_Split,
	"C27_SplitMany":          C27_SplitMany,
	"C27_SplitTemplate":      C27_SplitTemplate,
	"C27_Transpose":          C27_Transpose,
	"C27_Twice":              C27_Twice,
	"C27_Unwritable":         C27_Unwritable,
	"C27_UnwritableSource":   C27_UnwritableSource,
	"C27_UnwritableSplit":    C27_UnwritableSplit,
	"C28_Between":            C28_Between,
	"C28_Instant":            C28_Instant,
	"C28_Later":              C28_Later,
	"C28_Replaced":           C28_Replaced,
	"C28_Same":               C28_Same,
	"C28_Tracks":             C28_Tracks,
	"C29_Keys":               C29_Keys,
	"C29_Notes":              C29_Notes,
	"C29_Octaves":            C29_Octaves,
	"C29_Sum":                C29_Sum,
	"C29_Zero":               C29_Zero,
	"C31_Any":                C31_Any,
	"C31_AnyOwn":             C31_AnyOwn,
	"C31_Data":               C31_Data,
	"C31_Event":              C31_Event,
	"C31_Long":               C31_Long,
	"C31_Manufacturer":       C31_Manufacturer,
	"C31_Other":              C31_Other,
	"C31_Packet":             C31_Packet,
	"C31_Short":              C31_Short,
	"C32_Command":            C32_Command,
	"C32_Empty":              C32_Empty,
	"C32_Event":              C32_Event,
	"C32_Fails":              C32_Fails,
	"C32_Invalid":            C32_Invalid,
	"C32_Kinds":              C32_Kinds,
	"C32_Parts":              C32_Parts,
	"C32_Twice":              C32_Twice,
	"C33_Assemble":           C33_Assemble,
	"C33_Command":            C33_Command,
	"C33_Default":            C33_Default,
	"C33_Help":               C33_Help,
	"C33_MiddleC":            C33_MiddleC,
	"C33_Name":               C33_Name,
	"C33_Nothing":            C33_Nothing,
	"C33_Status":             C33_Status,
	"C33_Tracks":             C33_Tracks,
	"C33_Trip":               C33_Trip,
	"C34_Any":                C34_Any,
	"C34_Bank":               C34_Bank,
	"C34_Delta":              C34_Delta,
	"C34_End":                C34_End,
	"C34_Event":              C34_Event,
	"C34_Manufacturer":       C34_Manufacturer,
	"C34_Other":              C34_Other,
	"C34_Packet":             C34_Packet,
	"C34_Tag":                C34_Tag,
	"C35_Channel":            C35_Channel,
	"C35_ChannelText":        C35_ChannelText,
	"C35_Code":               C35_Code,
	"C35_Delta":              C35_Delta,
	"C35_DeltaText":          C35_DeltaText,
	"C35_Hex":                C35_Hex,
	"C35_HexNumber":          C35_HexNumber,
	"C35_HexText":            C35_HexText,
	"C35_Manufacturer":       C35_Manufacturer,
	"C35_MiddleC":            C35_MiddleC,
	"C35_Note":               C35_Note,
	"C35_Signature":          C35_Signature,
	"C35_Tag":                C35_Tag,
}
