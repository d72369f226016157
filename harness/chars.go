package main

// Characters of the 7-bit tables (3GPP TS 23.038), by national language
// identifier; 0 is the default alphabet.
var lockingChars = map[int]string{
	0:  "\n\r\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz¡£¤¥§¿ÄÅÆÇÉÑÖØÜßàäåæèéìñòöøùüΓΔΘΛΞΠΣΦΨΩ",
	1:  "\n\r\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz£¤¥§ÄÅÇÉÑÖÜßàäåçéñòöùüĞğİıŞşΓΔΘΛΞΠΣΦΨΩ€",
	2:  "\n\r\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz¡£¤¥§¿ÄÅÆÇÉÑÖØÜßàäåæèéìñòöøùüΓΔΘΛΞΠΣΦΨΩ",
	3:  "\n\r\x1b !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ\\^_`abcdefghijklmnopqrstuvwxyz|~£¥§ªºÀÁÂÃÇÉÊÍÓÔÕÚÜàáâãçéêíóôõúüΔ€∞",
	4:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzঁংঃঅআইঈউঊঋঌএঐওঔকখগঘঙচছজঝঞটঠডঢণতথদধনপফবভমযরলশষসহ়ঽািীুূৃৄেৈোৌ্ৎৗড়ঢ়ৰৱ",
	5:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzઁંઃઅઆઇઈઉઊઋઌઍએઐઑઓઔકખગઘઙચછજઝઞટઠડઢણતથદધનપફબભમયરલળવશષસહ઼ઽાિીુૂૃૄૅેૈૉોૌ્ૐૠૡૢૣ૱",
	6:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzअआइईउऊऋऌऍऎएऐऑऒओऔकखगघङचछजझञटठडढणतथदधनऩपफबभमयरऱलळऴवशषसह़ऽािीुूृॄॅॆेैॉॊोौ्ॐॲॻॼॾॿঁংঃ",
	7:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzಂಃಅಆಇಈಉಊಋಌಎಏಐಒಓಔಕಖಗಘಙಚಛಜಝಞಟಠಡಢಣತಥದಧನಪಫಬಭಮಯರಱಲಳವಶಷಸಹ಼ಽಾಿೀುೂೃೄೆೇೈೊೋೌ್ೕೖೠೡೢೣ",
	8:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzംഃഅആഇഈഉഊഋഌഎഏഐഒഓഔകഖഗഘങചഛജഝഞടഠഡഢണതഥദധനപഫബഭമയരറലളഴവശഷസഹഽാിീുൂൃൄെേൈൊോൌ്ൗൠൡൢൣ൹",
	9:  "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzଁଂଃଅଆଇଈଉଊଋଌଏଐଓଔକଖଗଘଙଚଛଜଝଞଟଠଡଢଣତଥଦଧନପଫବଭମଯରଲଳଵଶଷସହ଼ଽାିୀୁୂୃୄେୈୋୌ୍ୖୗୠୡୢୣ",
	10: "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzਁਂਃਅਆਇਈਉਊਏਐਓਔਕਖਗਘਙਚਛਜਝਞਟਠਡਢਣਤਥਦਧਨਪਫਬਭਮਯਰਲਲ਼ਵਸ਼ਸਹ਼ਾਿੀੁੂੇੈੋੌ੍ੑੰੱੲੳੴ",
	11: "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzஂஃஅஆஇஈஉஊஎஏஐஒஓஔகஙசஜஞடணதநனபமயரறலளழவஶஷஸஹாிீுூெேைொோௌ்ௐௗ௰௱௲௹",
	12: "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzఁంఃఅఆఇఈఉఊఋఌఎఏఐఒఓఔకఖగఘఙచఛజఝఞటఠడఢణతథదధనపఫబభమయరఱలళవశషసహఽాిీుూృౄెేైొోౌ్ౕౖౠౡౢౣ",
	13: "\n\r\x1b !(),.0123456789:;?abcdefghijklmnopqrstuvwxyzءآابتثجحخدذرزسشصضطظعفقلمنوٍُِّٰٕٖٓٔٗٹٺٻټٽپٿڀځڃڄڅچڇڈډڊڌڍڏڑړږژڙښڦکڪګگڱڳںڻڼھہۂۄیېےە",
}

var shiftChars = map[int]string{
	0:  "\n\f[\\]^{|}~€",
	1:  "\n\f[\\]^{|}~çĞğİıŞş€",
	2:  "\n\f[\\]^{|}~ÁÍÓÚáçíóú€",
	3:  "\n\f[\\]^{|}~ÀÁÂÃÊÍÓÔÕÚáâãçêíóôõúΓΘΠΣΦΨΩ€",
	4:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿য়ৠৡৢৣ০১২৩৪৫৬৭৮৯৲৳৴৵৶৷৸৹৺€",
	5:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥૦૧૨૩૪૫૬૭૮૯€",
	6:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿॒॑॓॔क़ख़ग़ज़ड़ढ़फ़य़ॠॡॢॣ।॥०१२३४५६७८९॰ॱ€",
	7:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥ೞ೦೧೨೩೪೫೬೭೮೯ೱೲ€",
	8:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥൦൧൨൩൪൫൬൭൮൯൰൱൲൳൴൵ൺൻർൽൾൿ€",
	9:  "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥ଡ଼ଢ଼ୟ୦୧୨୩୪୫୬୭୮୯୰ୱ€",
	10: "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥ਖ਼ਗ਼ਜ਼ੜਫ਼੦੧੨੩੪੫੬੭੮੯ੵ€",
	11: "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿।॥௦௧௨௩௪௫௬௭௮௯௳௴௵௶௷௸௺€",
	12: "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿ౘౙ౦౧౨౩౪౫౬౭౮౯౸౹౺౻౼౽౾౿€",
	13: "\f\r\x1b\"#$%&'*+-/<=>@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_{|}~¡£¤¥¿\u0600\u0601،؍؎؏ؐؑؒؓؔ؛؟ـْ٘٫٬ٲٳۍ۔۰۱۲۳۴۵۶۷۸۹€",
}

// The default alphabet and its extension, by septet.
var gsmDefault = map[byte]rune{
	0x00: '@',
	0x01: '£',
	0x02: '$',
	0x03: '¥',
	0x04: 'è',
	0x05: 'é',
	0x06: 'ù',
	0x07: 'ì',
	0x08: 'ò',
	0x09: 'Ç',
	0x0a: '\n',
	0x0b: 'Ø',
	0x0c: 'ø',
	0x0d: '\r',
	0x0e: 'Å',
	0x0f: 'å',
	0x10: 'Δ',
	0x11: '_',
	0x12: 'Φ',
	0x13: 'Γ',
	0x14: 'Λ',
	0x15: 'Ω',
	0x16: 'Π',
	0x17: 'Ψ',
	0x18: 'Σ',
	0x19: 'Θ',
	0x1a: 'Ξ',
	0x1b: '\x1b',
	0x1c: 'Æ',
	0x1d: 'æ',
	0x1e: 'ß',
	0x1f: 'É',
	0x20: ' ',
	0x21: '!',
	0x22: '"',
	0x23: '#',
	0x24: '¤',
	0x25: '%',
	0x26: '&',
	0x27: '\'',
	0x28: '(',
	0x29: ')',
	0x2a: '*',
	0x2b: '+',
	0x2c: ',',
	0x2d: '-',
	0x2e: '.',
	0x2f: '/',
	0x30: '0',
	0x31: '1',
	0x32: '2',
	0x33: '3',
	0x34: '4',
	0x35: '5',
	0x36: '6',
	0x37: '7',
	0x38: '8',
	0x39: '9',
	0x3a: ':',
	0x3b: ';',
	0x3c: '<',
	0x3d: '=',
	0x3e: '>',
	0x3f: '?',
	0x40: '¡',
	0x41: 'A',
	0x42: 'B',
	0x43: 'C',
	0x44: 'D',
	0x45: 'E',
	0x46: 'F',
	0x47: 'G',
	0x48: 'H',
	0x49: 'I',
	0x4a: 'J',
	0x4b: 'K',
	0x4c: 'L',
	0x4d: 'M',
	0x4e: 'N',
	0x4f: 'O',
	0x50: 'P',
	0x51: 'Q',
	0x52: 'R',
	0x53: 'S',
	0x54: 'T',
	0x55: 'U',
	0x56: 'V',
	0x57: 'W',
	0x58: 'X',
	0x59: 'Y',
	0x5a: 'Z',
	0x5b: 'Ä',
	0x5c: 'Ö',
	0x5d: 'Ñ',
	0x5e: 'Ü',
	0x5f: '§',
	0x60: '¿',
	0x61: 'a',
	0x62: 'b',
	0x63: 'c',
	0x64: 'd',
	0x65: 'e',
	0x66: 'f',
	0x67: 'g',
	0x68: 'h',
	0x69: 'i',
	0x6a: 'j',
	0x6b: 'k',
	0x6c: 'l',
	0x6d: 'm',
	0x6e: 'n',
	0x6f: 'o',
	0x70: 'p',
	0x71: 'q',
	0x72: 'r',
	0x73: 's',
	0x74: 't',
	0x75: 'u',
	0x76: 'v',
	0x77: 'w',
	0x78: 'x',
	0x79: 'y',
	0x7a: 'z',
	0x7b: 'ä',
	0x7c: 'ö',
	0x7d: 'ñ',
	0x7e: 'ü',
	0x7f: 'à',
}

var gsmExt = map[byte]rune{
	0x0a: '\f',
	0x0d: '\n',
	0x14: '^',
	0x28: '{',
	0x29: '}',
	0x2f: '\\',
	0x3c: '[',
	0x3d: '~',
	0x3e: ']',
	0x40: '|',
	0x65: '€',
}
