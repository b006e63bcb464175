// Frozen Kana conversion chart: generated by tools/freeze_kana.py from the
// documentation, reviewed by hand.  Hepburn/Kunrei in () are output only.
#pragma once
#include <string>
#include <vector>
namespace ref {
struct KanaRow {
  const char *roma, *hira, *kata;
  char type;
  const char *hepburn, *kunrei;
  std::vector<const char*> variants;
};
inline const std::vector<KanaRow>& kanaRows() {
  static const std::vector<KanaRow> r{
      {"la", "ぁ", "ァ", 'P', "", "", {"xa"}},
      {"a", "あ", "ア", 'P', "", "", {}},
      {"li", "ぃ", "ィ", 'P', "", "", {"xi"}},
      {"i", "い", "イ", 'P', "", "", {}},
      {"ye", "いぇ", "イェ", 'P', "", "", {}},
      {"lu", "ぅ", "ゥ", 'P', "", "", {"xu"}},
      {"u", "う", "ウ", 'P', "", "", {"wu"}},
      {"wi", "うぃ", "ウィ", 'P', "", "", {}},
      {"we", "うぇ", "ウェ", 'P', "", "", {}},
      {"le", "ぇ", "ェ", 'P', "", "", {"xe", "lye", "xye"}},
      {"e", "え", "エ", 'P', "", "", {}},
      {"lo", "ぉ", "ォ", 'P', "", "", {"xo"}},
      {"o", "お", "オ", 'P', "", "", {}},
      {"ka", "か", "カ", 'P', "", "", {}},
      {"ga", "が", "ガ", 'D', "", "", {}},
      {"ki", "き", "キ", 'P', "", "", {}},
      {"kyi", "きぃ", "キィ", 'P', "", "", {}},
      {"kye", "きぇ", "キェ", 'P', "", "", {}},
      {"kya", "きゃ", "キャ", 'P', "", "", {}},
      {"kyu", "きゅ", "キュ", 'P', "", "", {}},
      {"kyo", "きょ", "キョ", 'P', "", "", {}},
      {"gi", "ぎ", "ギ", 'D', "", "", {}},
      {"gyi", "ぎぃ", "ギィ", 'D', "", "", {}},
      {"gye", "ぎぇ", "ギェ", 'D', "", "", {}},
      {"gya", "ぎゃ", "ギャ", 'D', "", "", {}},
      {"gyu", "ぎゅ", "ギュ", 'D', "", "", {}},
      {"gyo", "ぎょ", "ギョ", 'D', "", "", {}},
      {"ku", "く", "ク", 'P', "", "", {}},
      {"qa", "くぁ", "クァ", 'P', "", "", {"kwa"}},
      {"qi", "くぃ", "クィ", 'P', "", "", {"kwi", "qwi"}},
      {"qu", "くぅ", "クゥ", 'P', "", "", {"kwu", "qwu"}},
      {"qe", "くぇ", "クェ", 'P', "", "", {"kwe", "qwe"}},
      {"qo", "くぉ", "クォ", 'P', "", "", {"kwo", "qwo"}},
      {"qwa", "くゎ", "クヮ", 'P', "", "", {}},
      {"gu", "ぐ", "グ", 'D', "", "", {}},
      {"gwa", "ぐぁ", "グァ", 'D', "", "", {}},
      {"gwi", "ぐぃ", "グィ", 'D', "", "", {}},
      {"gwu", "ぐぅ", "グゥ", 'D', "", "", {}},
      {"gwe", "ぐぇ", "グェ", 'D', "", "", {}},
      {"gwo", "ぐぉ", "グォ", 'D', "", "", {}},
      {"ke", "け", "ケ", 'P', "", "", {}},
      {"ge", "げ", "ゲ", 'D', "", "", {}},
      {"ko", "こ", "コ", 'P', "", "", {}},
      {"go", "ご", "ゴ", 'D', "", "", {}},
      {"sa", "さ", "サ", 'P', "", "", {}},
      {"za", "ざ", "ザ", 'D', "", "", {}},
      {"shi", "し", "シ", 'P', "", "si", {"si"}},
      {"syi", "しぃ", "シィ", 'P', "", "", {}},
      {"she", "しぇ", "シェ", 'P', "", "", {}},
      {"sha", "しゃ", "シャ", 'P', "", "sya", {"sya"}},
      {"shu", "しゅ", "シュ", 'P', "", "syu", {"syu"}},
      {"sho", "しょ", "ショ", 'P', "", "syo", {"syo"}},
      {"ji", "じ", "ジ", 'D', "", "zi", {"zi"}},
      {"jyi", "じぃ", "ジィ", 'D', "", "", {"zyi"}},
      {"je", "じぇ", "ジェ", 'D', "", "", {"zye", "jye"}},
      {"ja", "じゃ", "ジャ", 'D', "", "zya", {"zya", "jya"}},
      {"ju", "じゅ", "ジュ", 'D', "", "zyu", {"zyu", "jyu"}},
      {"jo", "じょ", "ジョ", 'D', "", "zyo", {"zyo", "jyo"}},
      {"su", "す", "ス", 'P', "", "", {}},
      {"swa", "すぁ", "スァ", 'P', "", "", {}},
      {"swi", "すぃ", "スィ", 'P', "", "", {}},
      {"swu", "すぅ", "スゥ", 'P', "", "", {}},
      {"swe", "すぇ", "スェ", 'P', "", "", {}},
      {"swo", "すぉ", "スォ", 'P', "", "", {}},
      {"zu", "ず", "ズ", 'D', "", "", {}},
      {"se", "せ", "セ", 'P', "", "", {}},
      {"ze", "ぜ", "ゼ", 'D', "", "", {}},
      {"so", "そ", "ソ", 'P', "", "", {}},
      {"zo", "ぞ", "ゾ", 'D', "", "", {}},
      {"ta", "た", "タ", 'P', "", "", {}},
      {"da", "だ", "ダ", 'D', "", "", {}},
      {"chi", "ち", "チ", 'P', "", "ti", {"ti"}},
      {"tyi", "ちぃ", "チィ", 'P', "", "", {}},
      {"che", "ちぇ", "チェ", 'P', "", "", {"tye"}},
      {"cha", "ちゃ", "チャ", 'P', "", "tya", {"tya"}},
      {"chu", "ちゅ", "チュ", 'P', "", "tyu", {"tyu"}},
      {"cho", "ちょ", "チョ", 'P', "", "tyo", {"tyo"}},
      {"di", "ぢ", "ヂ", 'D', "(ji)", "(zi)", {}},
      {"dyi", "ぢぃ", "ヂィ", 'D', "", "", {}},
      {"dye", "ぢぇ", "ヂェ", 'D', "", "", {}},
      {"dya", "ぢゃ", "ヂャ", 'D', "(ja)", "(zya)", {}},
      {"dyu", "ぢゅ", "ヂュ", 'D', "(ju)", "(zyu)", {}},
      {"dyo", "ぢょ", "ヂョ", 'D', "(jo)", "(zyo)", {}},
      {"ltu", "っ", "ッ", 'P', "", "", {"xtu"}},
      {"tsu", "つ", "ツ", 'P', "", "tu", {"tu"}},
      {"tsa", "つぁ", "ツァ", 'P', "", "", {}},
      {"tsi", "つぃ", "ツィ", 'P', "", "", {}},
      {"tse", "つぇ", "ツェ", 'P', "", "", {}},
      {"tso", "つぉ", "ツォ", 'P', "", "", {}},
      {"du", "づ", "ヅ", 'D', "(zu)", "(zu)", {}},
      {"te", "て", "テ", 'P', "", "", {}},
      {"thi", "てぃ", "ティ", 'P', "", "", {}},
      {"the", "てぇ", "テェ", 'P', "", "", {}},
      {"tha", "てゃ", "テャ", 'P', "", "", {}},
      {"thu", "てゅ", "テュ", 'P', "", "", {}},
      {"tho", "てょ", "テョ", 'P', "", "", {}},
      {"de", "で", "デ", 'D', "", "", {}},
      {"dhi", "でぃ", "ディ", 'D', "", "", {}},
      {"dhe", "でぇ", "デェ", 'D', "", "", {}},
      {"dha", "でゃ", "デャ", 'D', "", "", {}},
      {"dhu", "でゅ", "デュ", 'D', "", "", {}},
      {"dho", "でょ", "デョ", 'D', "", "", {}},
      {"to", "と", "ト", 'P', "", "", {}},
      {"twa", "とぁ", "トァ", 'P', "", "", {}},
      {"twi", "とぃ", "トィ", 'P', "", "", {}},
      {"twu", "とぅ", "トゥ", 'P', "", "", {}},
      {"twe", "とぇ", "トェ", 'P', "", "", {}},
      {"two", "とぉ", "トォ", 'P', "", "", {}},
      {"do", "ど", "ド", 'D', "", "", {}},
      {"dwa", "どぁ", "ドァ", 'D', "", "", {}},
      {"dwi", "どぃ", "ドィ", 'D', "", "", {}},
      {"dwu", "どぅ", "ドゥ", 'D', "", "", {}},
      {"dwe", "どぇ", "ドェ", 'D', "", "", {}},
      {"dwo", "どぉ", "ドォ", 'D', "", "", {}},
      {"na", "な", "ナ", 'P', "", "", {}},
      {"ni", "に", "ニ", 'P', "", "", {}},
      {"nyi", "にぃ", "ニィ", 'P', "", "", {}},
      {"nye", "にぇ", "ニェ", 'P', "", "", {}},
      {"nya", "にゃ", "ニャ", 'P', "", "", {}},
      {"nyu", "にゅ", "ニュ", 'P', "", "", {}},
      {"nyo", "にょ", "ニョ", 'P', "", "", {}},
      {"nu", "ぬ", "ヌ", 'P', "", "", {}},
      {"ne", "ね", "ネ", 'P', "", "", {}},
      {"no", "の", "ノ", 'P', "", "", {}},
      {"ha", "は", "ハ", 'P', "", "", {}},
      {"ba", "ば", "バ", 'D', "", "", {}},
      {"pa", "ぱ", "パ", 'H', "", "", {}},
      {"hi", "ひ", "ヒ", 'P', "", "", {}},
      {"hyi", "ひぃ", "ヒィ", 'P', "", "", {}},
      {"hye", "ひぇ", "ヒェ", 'P', "", "", {}},
      {"hya", "ひゃ", "ヒャ", 'P', "", "", {}},
      {"hyu", "ひゅ", "ヒュ", 'P', "", "", {}},
      {"hyo", "ひょ", "ヒョ", 'P', "", "", {}},
      {"bi", "び", "ビ", 'D', "", "", {}},
      {"byi", "びぃ", "ビィ", 'D', "", "", {}},
      {"bye", "びぇ", "ビェ", 'D', "", "", {}},
      {"bya", "びゃ", "ビャ", 'D', "", "", {}},
      {"byu", "びゅ", "ビュ", 'D', "", "", {}},
      {"byo", "びょ", "ビョ", 'D', "", "", {}},
      {"pi", "ぴ", "ピ", 'H', "", "", {}},
      {"pyi", "ぴぃ", "ピィ", 'H', "", "", {}},
      {"pye", "ぴぇ", "ピェ", 'H', "", "", {}},
      {"pya", "ぴゃ", "ピャ", 'H', "", "", {}},
      {"pyu", "ぴゅ", "ピュ", 'H', "", "", {}},
      {"pyo", "ぴょ", "ピョ", 'H', "", "", {}},
      {"fu", "ふ", "フ", 'P', "", "hu", {"hu"}},
      {"fa", "ふぁ", "ファ", 'P', "", "", {"fwa", "hwa"}},
      {"fi", "ふぃ", "フィ", 'P', "", "", {"fyi", "fwi", "hwi"}},
      {"fwu", "ふぅ", "フゥ", 'P', "", "", {}},
      {"fe", "ふぇ", "フェ", 'P', "", "", {"fye", "fwe", "hwe"}},
      {"fo", "ふぉ", "フォ", 'P', "", "", {"fwo", "hwo"}},
      {"fya", "ふゃ", "フャ", 'P', "", "", {}},
      {"fyu", "ふゅ", "フュ", 'P', "", "", {}},
      {"fyo", "ふょ", "フョ", 'P', "", "", {}},
      {"bu", "ぶ", "ブ", 'D', "", "", {}},
      {"pu", "ぷ", "プ", 'H', "", "", {}},
      {"he", "へ", "ヘ", 'P', "", "", {}},
      {"be", "べ", "ベ", 'D', "", "", {}},
      {"pe", "ぺ", "ペ", 'H', "", "", {}},
      {"ho", "ほ", "ホ", 'P', "", "", {}},
      {"bo", "ぼ", "ボ", 'D', "", "", {}},
      {"po", "ぽ", "ポ", 'H', "", "", {}},
      {"ma", "ま", "マ", 'P', "", "", {}},
      {"mi", "み", "ミ", 'P', "", "", {}},
      {"myi", "みぃ", "ミィ", 'P', "", "", {}},
      {"mye", "みぇ", "ミェ", 'P', "", "", {}},
      {"mya", "みゃ", "ミャ", 'P', "", "", {}},
      {"myu", "みゅ", "ミュ", 'P', "", "", {}},
      {"myo", "みょ", "ミョ", 'P', "", "", {}},
      {"mu", "む", "ム", 'P', "", "", {}},
      {"me", "め", "メ", 'P', "", "", {}},
      {"mo", "も", "モ", 'P', "", "", {}},
      {"lya", "ゃ", "ャ", 'P', "", "", {"xya"}},
      {"ya", "や", "ヤ", 'P', "", "", {}},
      {"lyu", "ゅ", "ュ", 'P', "", "", {"xyu"}},
      {"yu", "ゆ", "ユ", 'P', "", "", {}},
      {"lyo", "ょ", "ョ", 'P', "", "", {"xyo"}},
      {"yo", "よ", "ヨ", 'P', "", "", {}},
      {"ra", "ら", "ラ", 'P', "", "", {}},
      {"ri", "り", "リ", 'P', "", "", {}},
      {"ryi", "りぃ", "リィ", 'P', "", "", {}},
      {"rye", "りぇ", "リェ", 'P', "", "", {}},
      {"rya", "りゃ", "リャ", 'P', "", "", {}},
      {"ryu", "りゅ", "リュ", 'P', "", "", {}},
      {"ryo", "りょ", "リョ", 'P', "", "", {}},
      {"ru", "る", "ル", 'P', "", "", {}},
      {"re", "れ", "レ", 'P', "", "", {}},
      {"ro", "ろ", "ロ", 'P', "", "", {}},
      {"lwa", "ゎ", "ヮ", 'P', "", "", {"xwa"}},
      {"wa", "わ", "ワ", 'P', "", "", {}},
      {"wyi", "ゐ", "ヰ", 'P', "(i)", "(i)", {}},
      {"wye", "ゑ", "ヱ", 'P', "(e)", "(e)", {}},
      {"wo", "を", "ヲ", 'P', "(o)", "(o)", {}},
      {"n", "ん", "ン", 'P', "", "", {}},
      {"vu", "ゔ", "ヴ", 'D', "", "", {}},
      {"va", "ゔぁ", "ヴァ", 'D', "", "", {}},
      {"vi", "ゔぃ", "ヴィ", 'D', "", "", {}},
      {"ve", "ゔぇ", "ヴェ", 'D', "", "", {}},
      {"vo", "ゔぉ", "ヴォ", 'D', "", "", {}},
      {"vya", "ゔゃ", "ヴャ", 'D', "", "", {}},
      {"vyu", "ゔゅ", "ヴュ", 'D', "", "", {}},
      {"vyo", "ゔょ", "ヴョ", 'D', "", "", {}},
      {"lka", "ゕ", "ヵ", 'P', "", "", {"xka"}},
      {"lke", "ゖ", "ヶ", 'P', "", "", {"xke"}},
  };
  return r;
}
} // namespace ref
