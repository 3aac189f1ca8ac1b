package props

// Checks maps property ids to their deciding procedures.
var Checks = map[string]func(*Ctx){
	"C01": checkC01,
	"C02": checkC02,
	"C03": checkC03,
	"C04": checkC04,
	"C05": checkC05,
	"C06": checkC06,
	"C07": checkC07,
	"C08": checkC08,
	"C09": checkC09,
	"C10": checkC10,
	"C11": checkC11,
	"C12": checkC12,
	"C13": checkC13,
	"C14": checkC14,
	"C19": checkC19,
	"C20": checkC20,
	"C21": checkC21,
	"C22": checkC22,
	"C23": checkC23,
	"C24": checkC24,
	"C25": checkC25,
	"C26": checkC26,
	"C27": checkC27,
	"C28": checkC28,
	"C29": checkC29,
	"C30": checkC30,
	"C31": checkC31,
	"C34": checkC34,
	"C35": checkC35,
	"C36": checkC36,
	"C32": checkC32,
	"C33": checkC33,
	"C17": checkC17,
	"C18": checkC18,
	"C15": checkC15,
	"C16": checkC16,
}
