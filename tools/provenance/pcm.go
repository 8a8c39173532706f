package main
import ("fmt";"unicode")
func main(){ for r:=rune(0);r<=0x10ffff;r++{ if unicode.Is(unicode.Prepended_Concatenation_Mark,r){fmt.Printf("%X\n",r)}}}
