// Command peer answers requests (a JSON text per line) on standard input, or,
// as "peer probe QUOTEDTEXT WIDTH", reports the settings it started with.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	table "github.com/ilius/go-table"
	"github.com/ilius/go-table/runewidth"
	"verifharness/peer"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "probe" {
		w, err := strconv.Atoi(os.Args[3])
		if err != nil {
			panic(err)
		}
		text, err := strconv.Unquote(os.Args[2]) // node would change bytes that are not UTF-8
		if err != nil {
			panic(err)
		}
		n, d := runewidth.NewCondition(), runewidth.DefaultCondition
		fmt.Printf("locale=%v flag=%v default=%v new=%v strict=%v/%v/%v width=%d/%d cell=%q\n", runewidth.IsEastAsian(), runewidth.EastAsianWidth, d.EastAsianWidth, n.EastAsianWidth,
			runewidth.StrictEmojiNeutral, d.StrictEmojiNeutral, n.StrictEmojiNeutral, runewidth.StringWidth(peer.ProbeText), n.StringWidth(peer.ProbeText), table.AlignmentLeft(text, uint16(w)))
		return
	}
	peer.Mode(os.Args[1] == "true", os.Args[2] == "true")
	in := bufio.NewReaderSize(os.Stdin, 1<<16)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r peer.Request
		if err := json.Unmarshal(l, &r); err != nil {
			fmt.Fprintln(os.Stderr, "request:", err)
			os.Exit(2)
		}
		b, err := json.Marshal([]byte(peer.Answer(r)))
		if err != nil {
			panic(err)
		}
		os.Stdout.Write(append(b, '\n'))
	}
}
