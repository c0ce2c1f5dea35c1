package selftest

// Registry lists every harness for native replay (generated by gen.sh).
var Registry = map[string]func(){
	"X01_BytesBuffer":       X01_BytesBuffer,
	"X01_BytesFuncs":        X01_BytesFuncs,
	"X01_BytesReader":       X01_BytesReader,
	"X01_BytesSplit":        X01_BytesSplit,
	"X02_Replacer":          X02_Replacer,
	"X02_Strings":           X02_Strings,
	"X02_StringsIter":       X02_StringsIter,
	"X02_StringsMap":        X02_StringsMap,
	"X02_StringsReader":     X02_StringsReader,
	"X02_StringsUnicode":    X02_StringsUnicode,
	"X03_Reader":            X03_Reader,
	"X03_Scanner":           X03_Scanner,
	"X03_Writer":            X03_Writer,
	"X04_IO":                X04_IO,
	"X04_Pipe":              X04_Pipe,
	"X05_Binary":            X05_Binary,
	"X05_BinaryRead":        X05_BinaryRead,
	"X05_BinaryReadStruct":  X05_BinaryReadStruct,
	"X05_BinaryWrite":       X05_BinaryWrite,
	"X05_BinaryWriteStruct": X05_BinaryWriteStruct,
	"X06_Maps":              X06_Maps,
	"X06_Slices":            X06_Slices,
	"X06_Sort":              X06_Sort,
	"X07_Hex":               X07_Hex,
	"X07_Strconv":           X07_Strconv,
	"X07_StrconvMore":       X07_StrconvMore,
	"X08_Errors":            X08_Errors,
	"X08_Float":             X08_Float,
	"X08_Math":              X08_Math,
	"X08_SymFloat":          X08_SymFloat,
	"X09_Duration":          X09_Duration,
	"X09_DurationFloat":     X09_DurationFloat,
	"X09_UTF8":              X09_UTF8,
	"X09_Unicode":           X09_Unicode,
	"X10_Path":              X10_Path,
	"X10_Tabwriter":         X10_Tabwriter,
	"X20_Regexp":            X20_Regexp,
	"X20_RegexpAll":         X20_RegexpAll,
	"X20_RegexpNamed":       X20_RegexpNamed,
	"X21_JSON":              X21_JSON,
	"X21_JSONDecoder":       X21_JSONDecoder,
	"X21_JSONEncoder":       X21_JSONEncoder,
	"X21_JSONRound":         X21_JSONRound,
	"X22_Fmt":               X22_Fmt,
	"X22_FmtBin":            X22_FmtBin,
	"X22_Sscan":             X22_Sscan,
	"X22_SscanSym":          X22_SscanSym,
	"X22_Template":          X22_Template,
	"X23_CSV":               X23_CSV,
	"X23_Files":             X23_Files,
	"X30_Lang":              X30_Lang,
	"X31_Chan":              X31_Chan,
	"X31_Context":           X31_Context,
	"X31_Sync":              X31_Sync,
	"X31_SyncMap":           X31_SyncMap,
	"X32_Reflect":           X32_Reflect,
	"X32_ReflectValue":      X32_ReflectValue,
	"X32_SortIface":         X32_SortIface,
}
