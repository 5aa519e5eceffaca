package main

// Code generated by gen_families.py; many instances of recursive types, so that
// there are types that have not been used before.

var families = []family{
	newFamily[[0]byte](),
	newFamily[[1]byte](),
	newFamily[[2]byte](),
	newFamily[[3]byte](),
	newFamily[[4]byte](),
	newFamily[[5]byte](),
	newFamily[[6]byte](),
	newFamily[[7]byte](),
	newFamily[[8]byte](),
	newFamily[[9]byte](),
	newFamily[[10]byte](),
	newFamily[[11]byte](),
	newFamily[[12]byte](),
	newFamily[[13]byte](),
	newFamily[[14]byte](),
	newFamily[[15]byte](),
	newFamily[[16]byte](),
	newFamily[[17]byte](),
	newFamily[[18]byte](),
	newFamily[[19]byte](),
	newFamily[[20]byte](),
	newFamily[[21]byte](),
	newFamily[[22]byte](),
	newFamily[[23]byte](),
	newFamily[[24]byte](),
	newFamily[[25]byte](),
	newFamily[[26]byte](),
	newFamily[[27]byte](),
	newFamily[[28]byte](),
	newFamily[[29]byte](),
	newFamily[[30]byte](),
	newFamily[[31]byte](),
	newFamily[[32]byte](),
	newFamily[[33]byte](),
	newFamily[[34]byte](),
	newFamily[[35]byte](),
	newFamily[[36]byte](),
	newFamily[[37]byte](),
	newFamily[[38]byte](),
	newFamily[[39]byte](),
	newFamily[[40]byte](),
	newFamily[[41]byte](),
	newFamily[[42]byte](),
	newFamily[[43]byte](),
	newFamily[[44]byte](),
	newFamily[[45]byte](),
	newFamily[[46]byte](),
	newFamily[[47]byte](),
	newFamily[[48]byte](),
	newFamily[[49]byte](),
	newFamily[[50]byte](),
	newFamily[[51]byte](),
	newFamily[[52]byte](),
	newFamily[[53]byte](),
	newFamily[[54]byte](),
	newFamily[[55]byte](),
	newFamily[[56]byte](),
	newFamily[[57]byte](),
	newFamily[[58]byte](),
	newFamily[[59]byte](),
	newFamily[[60]byte](),
	newFamily[[61]byte](),
	newFamily[[62]byte](),
	newFamily[[63]byte](),
	newFamily[[64]byte](),
	newFamily[[65]byte](),
	newFamily[[66]byte](),
	newFamily[[67]byte](),
	newFamily[[68]byte](),
	newFamily[[69]byte](),
	newFamily[[70]byte](),
	newFamily[[71]byte](),
	newFamily[[72]byte](),
	newFamily[[73]byte](),
	newFamily[[74]byte](),
	newFamily[[75]byte](),
	newFamily[[76]byte](),
	newFamily[[77]byte](),
	newFamily[[78]byte](),
	newFamily[[79]byte](),
	newFamily[[80]byte](),
	newFamily[[81]byte](),
	newFamily[[82]byte](),
	newFamily[[83]byte](),
	newFamily[[84]byte](),
	newFamily[[85]byte](),
	newFamily[[86]byte](),
	newFamily[[87]byte](),
	newFamily[[88]byte](),
	newFamily[[89]byte](),
	newFamily[[90]byte](),
	newFamily[[91]byte](),
	newFamily[[92]byte](),
	newFamily[[93]byte](),
	newFamily[[94]byte](),
	newFamily[[95]byte](),
	newFamily[[96]byte](),
	newFamily[[97]byte](),
	newFamily[[98]byte](),
	newFamily[[99]byte](),
	newFamily[[100]byte](),
	newFamily[[101]byte](),
	newFamily[[102]byte](),
	newFamily[[103]byte](),
	newFamily[[104]byte](),
	newFamily[[105]byte](),
	newFamily[[106]byte](),
	newFamily[[107]byte](),
	newFamily[[108]byte](),
	newFamily[[109]byte](),
	newFamily[[110]byte](),
	newFamily[[111]byte](),
	newFamily[[112]byte](),
	newFamily[[113]byte](),
	newFamily[[114]byte](),
	newFamily[[115]byte](),
	newFamily[[116]byte](),
	newFamily[[117]byte](),
	newFamily[[118]byte](),
	newFamily[[119]byte](),
	newFamily[[120]byte](),
	newFamily[[121]byte](),
	newFamily[[122]byte](),
	newFamily[[123]byte](),
	newFamily[[124]byte](),
	newFamily[[125]byte](),
	newFamily[[126]byte](),
	newFamily[[127]byte](),
	newFamily[[128]byte](),
	newFamily[[129]byte](),
	newFamily[[130]byte](),
	newFamily[[131]byte](),
	newFamily[[132]byte](),
	newFamily[[133]byte](),
	newFamily[[134]byte](),
	newFamily[[135]byte](),
	newFamily[[136]byte](),
	newFamily[[137]byte](),
	newFamily[[138]byte](),
	newFamily[[139]byte](),
	newFamily[[140]byte](),
	newFamily[[141]byte](),
	newFamily[[142]byte](),
	newFamily[[143]byte](),
	newFamily[[144]byte](),
	newFamily[[145]byte](),
	newFamily[[146]byte](),
	newFamily[[147]byte](),
	newFamily[[148]byte](),
	newFamily[[149]byte](),
	newFamily[[150]byte](),
	newFamily[[151]byte](),
	newFamily[[152]byte](),
	newFamily[[153]byte](),
	newFamily[[154]byte](),
	newFamily[[155]byte](),
	newFamily[[156]byte](),
	newFamily[[157]byte](),
	newFamily[[158]byte](),
	newFamily[[159]byte](),
	newFamily[[160]byte](),
	newFamily[[161]byte](),
	newFamily[[162]byte](),
	newFamily[[163]byte](),
	newFamily[[164]byte](),
	newFamily[[165]byte](),
	newFamily[[166]byte](),
	newFamily[[167]byte](),
	newFamily[[168]byte](),
	newFamily[[169]byte](),
	newFamily[[170]byte](),
	newFamily[[171]byte](),
	newFamily[[172]byte](),
	newFamily[[173]byte](),
	newFamily[[174]byte](),
	newFamily[[175]byte](),
	newFamily[[176]byte](),
	newFamily[[177]byte](),
	newFamily[[178]byte](),
	newFamily[[179]byte](),
	newFamily[[180]byte](),
	newFamily[[181]byte](),
	newFamily[[182]byte](),
	newFamily[[183]byte](),
	newFamily[[184]byte](),
	newFamily[[185]byte](),
	newFamily[[186]byte](),
	newFamily[[187]byte](),
	newFamily[[188]byte](),
	newFamily[[189]byte](),
	newFamily[[190]byte](),
	newFamily[[191]byte](),
	newFamily[[192]byte](),
	newFamily[[193]byte](),
	newFamily[[194]byte](),
	newFamily[[195]byte](),
	newFamily[[196]byte](),
	newFamily[[197]byte](),
	newFamily[[198]byte](),
	newFamily[[199]byte](),
	newFamily[[200]byte](),
	newFamily[[201]byte](),
	newFamily[[202]byte](),
	newFamily[[203]byte](),
	newFamily[[204]byte](),
	newFamily[[205]byte](),
	newFamily[[206]byte](),
	newFamily[[207]byte](),
	newFamily[[208]byte](),
	newFamily[[209]byte](),
	newFamily[[210]byte](),
	newFamily[[211]byte](),
	newFamily[[212]byte](),
	newFamily[[213]byte](),
	newFamily[[214]byte](),
	newFamily[[215]byte](),
	newFamily[[216]byte](),
	newFamily[[217]byte](),
	newFamily[[218]byte](),
	newFamily[[219]byte](),
	newFamily[[220]byte](),
	newFamily[[221]byte](),
	newFamily[[222]byte](),
	newFamily[[223]byte](),
	newFamily[[224]byte](),
	newFamily[[225]byte](),
	newFamily[[226]byte](),
	newFamily[[227]byte](),
	newFamily[[228]byte](),
	newFamily[[229]byte](),
	newFamily[[230]byte](),
	newFamily[[231]byte](),
	newFamily[[232]byte](),
	newFamily[[233]byte](),
	newFamily[[234]byte](),
	newFamily[[235]byte](),
	newFamily[[236]byte](),
	newFamily[[237]byte](),
	newFamily[[238]byte](),
	newFamily[[239]byte](),
}
