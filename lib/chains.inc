{824322590560834439ULL,412161295280417219ULL,206080647640208609ULL},
{1026939064154193119ULL,513469532077096559ULL,256734766038548279ULL},
{940506127396956287ULL,470253063698478143ULL,235126531849239071ULL},
{929423007010523447ULL,464711503505261723ULL,232355751752630861ULL},
{952891633122074879ULL,476445816561037439ULL,238222908280518719ULL},
{1030106107568257199ULL,515053053784128599ULL,257526526892064299ULL},
{972129074331999407ULL,486064537165999703ULL,243032268582999851ULL},
{944132240310842039ULL,472066120155421019ULL,236033060077710509ULL},
{831647011135527407ULL,415823505567763703ULL,207911752783881851ULL},
{1084359914487619919ULL,542179957243809959ULL,271089978621904979ULL},
{953885960746059959ULL,476942980373029979ULL,238471490186514989ULL},
{787187451095195399ULL,393593725547597699ULL,196796862773798849ULL},
{1113193552372836527ULL,556596776186418263ULL,278298388093209131ULL},
{697286186594260559ULL,348643093297130279ULL,174321546648565139ULL},
{1073691219597152207ULL,536845609798576103ULL,268422804899288051ULL},
{803739738961110767ULL,401869869480555383ULL,200934934740277691ULL},
{593358155454980159ULL,296679077727490079ULL,148339538863745039ULL},
{838215741656391599ULL,419107870828195799ULL,209553935414097899ULL},
{1109436745446891647ULL,554718372723445823ULL,277359186361722911ULL},
{578793990026689127ULL,289396995013344563ULL,144698497506672281ULL},
{905626468819679567ULL,452813234409839783ULL,226406617204919891ULL},
{714970699566086399ULL,357485349783043199ULL,178742674891521599ULL},
{610114242673599047ULL,305057121336799523ULL,152528560668399761ULL},
{626872689411656279ULL,313436344705828139ULL,156718172352914069ULL},
{666862481875070567ULL,333431240937535283ULL,166715620468767641ULL},
{997116012207487247ULL,498558006103743623ULL,249279003051871811ULL},
{774172726586063807ULL,387086363293031903ULL,193543181646515951ULL},
{892861174682316839ULL,446430587341158419ULL,223215293670579209ULL},
{906805853483619527ULL,453402926741809763ULL,226701463370904881ULL},
{643300504919087087ULL,321650252459543543ULL,160825126229771771ULL},
{848985236798683679ULL,424492618399341839ULL,212246309199670919ULL},
{870297857357962919ULL,435148928678981459ULL,217574464339490729ULL},
{720980197799803079ULL,360490098899901539ULL,180245049449950769ULL},
{788230556856689879ULL,394115278428344939ULL,197057639214172469ULL},
{747633903679193159ULL,373816951839596579ULL,186908475919798289ULL},
{854522030076939047ULL,427261015038469523ULL,213630507519234761ULL},
{691764545378618567ULL,345882272689309283ULL,172941136344654641ULL},
{729534345148393439ULL,364767172574196719ULL,182383586287098359ULL},
{901395837769053167ULL,450697918884526583ULL,225348959442263291ULL},
{1047264322486504247ULL,523632161243252123ULL,261816080621626061ULL},
{989375429498088527ULL,494687714749044263ULL,247343857374522131ULL},
{1034862640897331999ULL,517431320448665999ULL,258715660224332999ULL},
{997009967482295279ULL,498504983741147639ULL,249252491870573819ULL},
{1096996047384595199ULL,548498023692297599ULL,274249011846148799ULL},
{944068488644917799ULL,472034244322458899ULL,236017122161229449ULL},
{692525260409887679ULL,346262630204943839ULL,173131315102471919ULL},
{920559212110524887ULL,460279606055262443ULL,230139803027631221ULL},
{1032145990322464607ULL,516072995161232303ULL,258036497580616151ULL},
{695855201082905159ULL,347927600541452579ULL,173963800270726289ULL},
{1122952136176560839ULL,561476068088280419ULL,280738034044140209ULL},
{840864657419393879ULL,420432328709696939ULL,210216164354848469ULL},
{1117888623819849359ULL,558944311909924679ULL,279472155954962339ULL},
{883923421548085319ULL,441961710774042659ULL,220980855387021329ULL},
{1085141839199512079ULL,542570919599756039ULL,271285459799878019ULL},
{947047940523857639ULL,473523970261928819ULL,236761985130964409ULL},
{1058718807435954359ULL,529359403717977179ULL,264679701858988589ULL},
{647861733448572887ULL,323930866724286443ULL,161965433362143221ULL},
{944557536522661199ULL,472278768261330599ULL,236139384130665299ULL},
{723090139745231759ULL,361545069872615879ULL,180772534936307939ULL},
{908157025476672239ULL,454078512738336119ULL,227039256369168059ULL},
{1085394397475587679ULL,542697198737793839ULL,271348599368896919ULL},
{1037774833906300487ULL,518887416953150243ULL,259443708476575121ULL},
{1122572234846620007ULL,561286117423310003ULL,280643058711655001ULL},
{689251013560180367ULL,344625506780090183ULL,172312753390045091ULL},
{606530339930997887ULL,303265169965498943ULL,151632584982749471ULL},
{865961505809753687ULL,432980752904876843ULL,216490376452438421ULL},
{1052739146126594327ULL,526369573063297163ULL,263184786531648581ULL},
{1059996747144143087ULL,529998373572071543ULL,264999186786035771ULL},
{1080550409054274479ULL,540275204527137239ULL,270137602263568619ULL},
{1129778683989163007ULL,564889341994581503ULL,282444670997290751ULL},
{827912230061207807ULL,413956115030603903ULL,206978057515301951ULL},
{906803636065401527ULL,453401818032700763ULL,226700909016350381ULL},
{1065792332517811799ULL,532896166258905899ULL,266448083129452949ULL},
{917657560292299727ULL,458828780146149863ULL,229414390073074931ULL},
{1072554766953662207ULL,536277383476831103ULL,268138691738415551ULL},
{668511724090713719ULL,334255862045356859ULL,167127931022678429ULL},
{874947982370214839ULL,437473991185107419ULL,218736995592553709ULL},
{660246973084112567ULL,330123486542056283ULL,165061743271028141ULL},
{997940905103309327ULL,498970452551654663ULL,249485226275827331ULL},
{944977441635623807ULL,472488720817811903ULL,236244360408905951ULL},
{675194827848872567ULL,337597413924436283ULL,168798706962218141ULL},
{881852730790697087ULL,440926365395348543ULL,220463182697674271ULL},
{1129533949559212727ULL,564766974779606363ULL,282383487389803181ULL},
{882766763105660327ULL,441383381552830163ULL,220691690776415081ULL},
{656310054394927007ULL,328155027197463503ULL,164077513598731751ULL},
{735660430129230839ULL,367830215064615419ULL,183915107532307709ULL},
{895792933981315127ULL,447896466990657563ULL,223948233495328781ULL},
{906280427634886079ULL,453140213817443039ULL,226570106908721519ULL},
{879288175897523807ULL,439644087948761903ULL,219822043974380951ULL},
{641135532407869127ULL,320567766203934563ULL,160283883101967281ULL},
{1059036146217195767ULL,529518073108597883ULL,264759036554298941ULL},
{1092972594772859519ULL,546486297386429759ULL,273243148693214879ULL},
{762925723890970007ULL,381462861945485003ULL,190731430972742501ULL},
{589482582893818919ULL,294741291446909459ULL,147370645723454729ULL},
{1097548363081536767ULL,548774181540768383ULL,274387090770384191ULL},
{600603328893843599ULL,300301664446921799ULL,150150832223460899ULL},
{816981662742282959ULL,408490831371141479ULL,204245415685570739ULL},
{847509052858277399ULL,423754526429138699ULL,211877263214569349ULL},
{612758211768911639ULL,306379105884455819ULL,153189552942227909ULL},
{730075690377474359ULL,365037845188737179ULL,182518922594368589ULL},
{640067953467109439ULL,320033976733554719ULL,160016988366777359ULL},
{667711245596954759ULL,333855622798477379ULL,166927811399238689ULL},
{787405515139011047ULL,393702757569505523ULL,196851378784752761ULL},
{892224727370988359ULL,446112363685494179ULL,223056181842747089ULL},
{713872956134075399ULL,356936478067037699ULL,178468239033518849ULL},
{820695856253266439ULL,410347928126633219ULL,205173964063316609ULL},
{676695974896514687ULL,338347987448257343ULL,169173993724128671ULL},
{951411623419615679ULL,475705811709807839ULL,237852905854903919ULL},
{817853367480380447ULL,408926683740190223ULL,204463341870095111ULL},
{789916077372231959ULL,394958038686115979ULL,197479019343057989ULL},
{925874896653753239ULL,462937448326876619ULL,231468724163438309ULL},
{1099940676763785239ULL,549970338381892619ULL,274985169190946309ULL},
{848500619507989247ULL,424250309753994623ULL,212125154876997311ULL},
{625176222203025719ULL,312588111101512859ULL,156294055550756429ULL},
{998630585789223119ULL,499315292894611559ULL,249657646447305779ULL},
{958553051981284127ULL,479276525990642063ULL,239638262995321031ULL},
{829958619498186887ULL,414979309749093443ULL,207489654874546721ULL},
{895041621976448399ULL,447520810988224199ULL,223760405494112099ULL},
{917559592290680399ULL,458779796145340199ULL,229389898072670099ULL},
{814574804374016207ULL,407287402187008103ULL,203643701093504051ULL},
{656156471551307087ULL,328078235775653543ULL,164039117887826771ULL},
{624692754474120239ULL,312346377237060119ULL,156173188618530059ULL},
{621984216552571487ULL,310992108276285743ULL,155496054138142871ULL},
{873737245649206727ULL,436868622824603363ULL,218434311412301681ULL},
{1034804475564014927ULL,517402237782007463ULL,258701118891003731ULL},
{1056340904096188367ULL,528170452048094183ULL,264085226024047091ULL},
{959274192645052127ULL,479637096322526063ULL,239818548161263031ULL},
{728380954366693487ULL,364190477183346743ULL,182095238591673371ULL},
{1043471900287557239ULL,521735950143778619ULL,260867975071889309ULL},
{796069221222470087ULL,398034610611235043ULL,199017305305617521ULL},
{837505054265121647ULL,418752527132560823ULL,209376263566280411ULL},
{895712304802639967ULL,447856152401319983ULL,223928076200659991ULL},
{1077851453227777919ULL,538925726613888959ULL,269462863306944479ULL},
{610386803773670879ULL,305193401886835439ULL,152596700943417719ULL},
{707218014965170967ULL,353609007482585483ULL,176804503741292741ULL},
{1066729671753985007ULL,533364835876992503ULL,266682417938496251ULL},
{601322643711555047ULL,300661321855777523ULL,150330660927888761ULL},
{919170665665410527ULL,459585332832705263ULL,229792666416352631ULL},
{742605890025850079ULL,371302945012925039ULL,185651472506462519ULL},
{976221271164448679ULL,488110635582224339ULL,244055317791112169ULL},
{878927588130599807ULL,439463794065299903ULL,219731897032649951ULL},
{591331960265473247ULL,295665980132736623ULL,147832990066368311ULL},
{689359832232394439ULL,344679916116197219ULL,172339958058098609ULL},
{898594562414001119ULL,449297281207000559ULL,224648640603500279ULL},
{576991384068000887ULL,288495692034000443ULL,144247846017000221ULL},
{665508393219391847ULL,332754196609695923ULL,166377098304847961ULL},
{704635484424598127ULL,352317742212299063ULL,176158871106149531ULL},
{869516508623205959ULL,434758254311602979ULL,217379127155801489ULL},
{1024734375976954439ULL,512367187988477219ULL,256183593994238609ULL},
{1010432760643085999ULL,505216380321542999ULL,252608190160771499ULL},
{856093971979884887ULL,428046985989942443ULL,214023492994971221ULL},
{643699851382232279ULL,321849925691116139ULL,160924962845558069ULL},
{644691155646221039ULL,322345577823110519ULL,161172788911555259ULL},
{1084286622821321807ULL,542143311410660903ULL,271071655705330451ULL},
{1020461972309047319ULL,510230986154523659ULL,255115493077261829ULL},
{750508074520547039ULL,375254037260273519ULL,187627018630136759ULL},
{1089831347577295847ULL,544915673788647923ULL,272457836894323961ULL},
{581266557882884759ULL,290633278941442379ULL,145316639470721189ULL},
{985737689623347239ULL,492868844811673619ULL,246434422405836809ULL},
{726030585598284119ULL,363015292799142059ULL,181507646399571029ULL},
