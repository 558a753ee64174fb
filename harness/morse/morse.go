// Package morse keys texts in Morse code, independently of the code under test.
package morse

import (
	"math/rand"
	"strings"
)

// Table is the Morse alphabet that sdrainer supports.
var Table = map[rune]string{
	'a': ".-", 'b': "-...", 'c': "-.-.", 'd': "-..", 'e': ".", 'f': "..-.", 'g': "--.", 'h': "....", 'i': "..", 'j': ".---",
	'k': "-.-", 'l': ".-..", 'm': "--", 'n': "-.", 'o': "---", 'p': ".--.", 'q': "--.-", 'r': ".-.", 's': "...", 't': "-",
	'u': "..-", 'v': "...-", 'w': ".--", 'x': "-..-", 'y': "-.--", 'z': "--..",
	'ä': ".-.-", 'ö': "---.", 'ü': "..--",
	'0': "-----", '1': ".----", '2': "..---", '3': "...--", '4': "....-", '5': ".....", '6': "-....", '7': "--...", '8': "---..", '9': "----.",
	'+': ".-.-.", '-': "-....-", '=': "-...-", '.': ".-.-.-", ':': "---...", ',': "--..--", ';': "-.-.-.", '?': "..--..", '/': "-..-.",
	'\'': ".----.", '"': ".-..-.", '(': "-.--.", ')': "-.--.-", '_': "..--.-", '@': ".--.-.",
	'[': "-.-.-", ']': "...-.-", '%': "...-.", '~': ".-...", '§': "........",
}

// Alphabet in a fixed order.
var Alphabet = []rune("abcdefghijklmnopqrstuvwxyzäöü0123456789+-=.:,;?/'\"()_@[]%~§")

// Letters and digits.
var Letters = []rune("abcdefghijklmnopqrstuvwxyz0123456789")

// Mark is a period of key down or key up.
type Mark struct {
	On    bool
	Units float64 // in dits
}

// Encode the text. The result starts with key down and ends with a word gap.
func Encode(text string) []Mark {
	var result []Mark
	for _, word := range strings.Fields(text) {
		for _, r := range word {
			code, ok := Table[r]
			if !ok {
				panic("no such character: " + string(r))
			}
			for _, s := range code {
				units := 1.0
				if s == '-' {
					units = 3
				}
				result = append(result, Mark{true, units}, Mark{false, 1})
			}
			result[len(result)-1].Units = 3
		}
		if len(result) > 0 {
			result[len(result)-1].Units = 7
		}
	}
	return result
}

// DitSeconds is the duration of a dit at the given speed.
func DitSeconds(wpm float64) float64 { return 60.0 / (50.0 * wpm) }

// Jitter varies each mark by up to the given share of a dit.
func Jitter(marks []Mark, amount float64, rnd *rand.Rand) []Mark {
	result := make([]Mark, len(marks))
	for i, m := range marks {
		m.Units += amount * (2*rnd.Float64() - 1)
		result[i] = m
	}
	return result
}

// Key samples the marks with the given number of ticks per dit.
func Key(marks []Mark, ticksPerDit float64, phase float64) []bool {
	var result []bool
	edge := phase
	for _, m := range marks {
		edge += m.Units * ticksPerDit
		for float64(len(result))+0.5 < edge {
			result = append(result, m.On)
		}
	}
	return result
}

// RandomText of the given number of words.
func RandomText(rnd *rand.Rand, alphabet []rune, words, maxLen int) string {
	result := make([]string, words)
	for i := range result {
		var b strings.Builder
		for j := 0; j < 1+rnd.Intn(maxLen); j++ {
			b.WriteRune(alphabet[rnd.Intn(len(alphabet))])
		}
		result[i] = b.String()
	}
	return strings.Join(result, " ")
}
