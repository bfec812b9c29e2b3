// Ziggurat tables (256 layers for the exponential, 128 for the normal): correctly rounded values of the defining equations (checked by S14).
#pragma once
static const double zx_exp[257] = { 8.6971174701310492, 7.6971174701310501, 6.9410336293772126, 6.4783784938325697, 6.1441646657724727, 5.8821443157953999, 5.6664101674540337, 5.4828906275260625,
  5.3230905057543989, 5.1814872813015009, 5.054288489981305, 4.9387770859012514, 4.8329397410251129, 4.7352429966017411, 4.6444918854200852, 4.5597370617073514,
  4.4802117465284219, 4.4052876934735732, 4.334443680317273, 4.2672424802773659, 4.2033137137351844, 4.1423408656640515, 4.0840513104082978, 4.0282085446479368,
  3.9746060666737884, 3.9230625001354897, 3.8734176703995091, 3.8255294185223367, 3.7792709924116679, 3.7345288940397974, 3.6912010902374188, 3.6491955157608538,
  3.6084288131289095, 3.5688252656483375, 3.5303158891293438, 3.4928376547740601, 3.4563328211327606, 3.4207483572511204, 3.3860354424603019, 3.3521490309001098,
  3.3190474709707489, 3.2866921715990691, 3.2550473085704503, 3.2240795652862646, 3.1937579032122407, 3.1640533580259733, 3.1349388580844408, 3.1063890623398245,
  3.0783802152540907, 3.0508900166154556, 3.0238975044556766, 2.9973829495161306, 2.9713277599210897, 2.9457143948950457, 2.9205262865127408, 2.8957477686001418,
  2.8713640120155364, 2.8473609656351888, 2.8237253024500353, 2.8004443702507382, 2.777506146439757, 2.7548991965623455, 2.732612636194701, 2.7106360958679292,
  2.6889596887418041, 2.667573980773267, 2.6464699631518096, 2.6256390267977885, 2.6050729387408356, 2.5847638202141408, 2.5647041263169053, 2.54488662711187,
  2.525304390037828, 2.505950763528594, 2.4868193617402099, 2.4679040502973648, 2.4491989329782498, 2.4306983392644197, 2.4123968126888706, 2.3942890999214583,
  2.376370140536141, 2.3586350574093373, 2.3410791477030348, 2.3236978743901964, 2.3064868582835798, 2.2894418705322694, 2.2725588255531548, 2.2558337743672192,
  2.2392628983129086, 2.2228425031110364, 2.2065690132576634, 2.19043896672322, 2.1744490099377747, 2.1585958930438855, 2.1428764653998416, 2.1272876713173678,
  2.1118265460190417, 2.0964902118017146, 2.0812758743932247, 2.0661808194905755, 2.0512024094685848, 2.0363380802487696, 2.0215853383189262, 2.0069417578945181,
  1.9924049782135764, 1.9779727009573602, 1.9636426877895481, 1.9494127580071845, 1.9352807862970511, 1.9212447005915276, 1.9073024800183871, 1.8934521529393078,
  1.8796917950722107, 1.8660195276928275, 1.8524335159111751, 1.8389319670188793, 1.8255131289035191, 1.8121752885263902, 1.7989167704602904, 1.7857359354841253,
  1.772631179231305, 1.7596009308890743, 1.746643651946074, 1.7337578349855711, 1.7209420025219351, 1.7081947058780576, 1.6955145241015377, 1.6829000629175537,
  1.6703499537164519, 1.6578628525741725, 1.6454374393037234, 1.6330724165359911, 1.6207665088282577, 1.6085184617988582, 1.5963270412864832, 1.5841910325326887,
  1.5721092393862295, 1.5600804835278879, 1.5481036037145133, 1.5361774550410319, 1.524300908219226, 1.5124728488721169, 1.5006921768428165, 1.4889578055167456,
  1.4772686611561334, 1.4656236822457451, 1.4540218188487932, 1.4424620319720123, 1.4309432929388795, 1.4194645827699828, 1.4080248915695353, 1.3966232179170417,
  1.3852585682631218, 1.3739299563284901, 1.3626364025050866, 1.351376933258335, 1.3401505805295046, 1.3289563811371163, 1.3177933761763245, 1.3066606104151739,
  1.2955571316866008, 1.2844819902750126, 1.2734342382962411, 1.2624129290696153, 1.2514171164808525, 1.2404458543344064, 1.2294981956938491, 1.2185731922087903,
  1.2076698934267613, 1.1967873460884031, 1.1859245934042024, 1.1750806743109117, 1.1642546227056791, 1.1534454666557747, 1.1426522275816728, 1.1318739194110787,
  1.1211095477013306, 1.1103581087274115, 1.0996185885325978, 1.0888899619385473, 1.0781711915113728, 1.0674612264799681, 1.0567590016025519, 1.0460634359770447,
  1.035373431790529, 1.0246878730026179, 1.0140056239570971, 1.0033255279156974, 0.99264640550727645, 0.98196705308506316, 0.97128624098390393, 0.96060271166866706,
  0.94991517776407663, 0.93922231995526295, 0.92852278474721117, 0.91781518207004498, 0.90709808271569103, 0.89637001558989071, 0.88562946476175231, 0.87487486629102584,
  0.86410460481100515, 0.85331700984237402, 0.84251035181036926, 0.83168283773427387, 0.82083260655441248, 0.80995772405741906, 0.79905617735548784, 0.78812586886949321,
  0.77716460975913049, 0.76617011273543545, 0.75513998418198292, 0.74407171550050877, 0.73296267358436606, 0.72181009030875687, 0.71061105090965571, 0.69936248110323262,
  0.68806113277374858, 0.67670356802952336, 0.66528614139267861, 0.65380497984766561, 0.64225596042453703, 0.63063468493349095, 0.61893645139487674, 0.60715622162030081,
  0.59528858429150355, 0.58332771274877027, 0.571267316532589, 0.55910058551154129, 0.54682012516331113, 0.53441788123716616, 0.52188505159213561, 0.50921198244365495,
  0.49638804551867161, 0.48340149165346225, 0.47023927508216945, 0.45688684093142073, 0.44332786607355296, 0.42954394022541131, 0.41551416960035698, 0.40121467889627838,
  0.38661797794112024, 0.37169214532991784, 0.35639976025839443, 0.34069648106484979, 0.32452911701691006, 0.30783295467493288, 0.29052795549123117, 0.27251318547846548,
  0.25365836338591286, 0.23379048305967554, 0.21267151063096745, 0.18995868962243279, 0.16512762256418831, 0.13730498094001381, 0.10483850756582018, 0.063852163815003485,
  0 };
static const double zy_exp[257] = { 0, 0.00045413435384149677, 0.00096726928232717454, 0.0015362997803015724, 0.0021459677437189063, 0.0027887987935740761, 0.003460264777836904, 0.0041572951208337953,
  0.0048776559835423923, 0.005619642207205483, 0.0063819059373191791, 0.0071633531836349839, 0.00796307743801704, 0.0087803149858089753, 0.0096144136425022099, 0.010464810181029979,
  0.011331013597834597, 0.012212592426255381, 0.013109164931254991, 0.014020391403181938, 0.014945968011691148, 0.015885621839973163, 0.016839106826039948, 0.017806200410911362,
  0.01878670074469603, 0.019780424338009743, 0.020787204072578117, 0.021806887504283581, 0.02283933540638524, 0.023884420511558171, 0.024942026419731783, 0.026012046645134217,
  0.0270943837809558, 0.028188948763978636, 0.029295660224637393, 0.030414443910466604, 0.031545232172893609, 0.032687963508959535, 0.03384258215087433, 0.03500903769739741,
  0.036187284781931423, 0.037377282772959361, 0.038578995503074857, 0.039792391023374125, 0.041017441380414819, 0.042254122413316234, 0.043502413568888183, 0.044762297732943282,
  0.04603376107617517, 0.047316792913181548, 0.048611385573379497, 0.049917534282706372, 0.051235237055126281, 0.052564494593071692, 0.053905310196046087, 0.055257689676697037,
  0.056621641283742877, 0.057997175631200659, 0.059384305633420266, 0.060783046445479633, 0.062193415408540995, 0.063615431999807334, 0.065049117786753749, 0.066494496385339774,
  0.067951593421936601, 0.069420436498728755, 0.070901055162371829, 0.072393480875708738, 0.073897746992364746, 0.07541388873405841, 0.076941943170480503, 0.078481949201606421,
  0.080033947542319905, 0.081597980709237419, 0.083174093009632383, 0.084762330532368119, 0.086362741140756913, 0.087975374467270218, 0.089600281910032858, 0.091237516631040155,
  0.092887133556043541, 0.094549189376055859, 0.096223742550432798, 0.097910853311492199, 0.099610583670637132, 0.10132299742595363, 0.10304816017125772, 0.10478613930657017,
  0.10653700405000166, 0.1083008254510338, 0.11007767640518538, 0.1118676316700563, 0.11367076788274431, 0.11548716357863353, 0.11731689921155557, 0.11916005717532768,
  0.12101672182667483, 0.12288697950954514, 0.12477091858083096, 0.12666862943751067, 0.12858020454522817, 0.13050573846833077, 0.13244532790138752, 0.13439907170221363,
  0.13636707092642886, 0.1383494288635802, 0.14034625107486245, 0.1423576454324722, 0.14438372216063478, 0.14642459387834494, 0.14848037564386679, 0.15055118500103989,
  0.15263714202744286, 0.15473836938446808, 0.15685499236936523, 0.15898713896931421, 0.16113493991759203, 0.16329852875190182, 0.165478041874936, 0.16767361861725019,
  0.16988540130252766, 0.17211353531532006, 0.17435816917135349, 0.17661945459049488, 0.17889754657247831, 0.18119260347549629, 0.18350478709776746, 0.18583426276219711,
  0.18818119940425432, 0.19054576966319539, 0.19292814997677135, 0.19532852067956322, 0.19774706610509887, 0.20018397469191127, 0.20263943909370902, 0.20511365629383771,
  0.20760682772422204, 0.21011915938898826, 0.21265086199297828, 0.21520215107537868, 0.21777324714870053, 0.22036437584335949, 0.22297576805812019, 0.22560766011668407,
  0.2282602939307167, 0.23093391716962741, 0.23362878343743335, 0.23634515245705964, 0.23908329026244918, 0.24184346939887721, 0.24462596913189211, 0.24743107566532763,
  0.2502590823688623, 0.25311029001562946, 0.25598500703041538, 0.25888354974901623, 0.26180624268936298, 0.2647534188350622, 0.26772541993204479, 0.27072259679906002,
  0.27374530965280297, 0.27679392844851736, 0.27986883323697292, 0.28297041453878075, 0.28609907373707683, 0.28925522348967775, 0.29243928816189257, 0.2956517042812612,
  0.29889292101558179, 0.30216340067569353, 0.30546361924459026, 0.30879406693456019, 0.31215524877417955, 0.31554768522712895, 0.31897191284495724, 0.32242848495608917,
  0.32591797239355619, 0.32944096426413633, 0.33299806876180899, 0.33658991402867761, 0.34021714906678002, 0.34388044470450241, 0.34758049462163698, 0.35131801643748334,
  0.35509375286678746, 0.35890847294874978, 0.36276297335481777, 0.36665807978151416, 0.370594648435146, 0.37457356761590216, 0.37859575940958079, 0.38266218149600983,
  0.38677382908413765, 0.39093173698479711, 0.39513698183329016, 0.39939068447523107, 0.40369401253053028, 0.4080481831520324, 0.41245446599716118, 0.41691418643300288,
  0.42142872899761658, 0.42599954114303434, 0.43062813728845883, 0.43531610321563657, 0.4400651008423539, 0.44487687341454851, 0.449753251162755, 0.4546961574746155,
  0.45970761564213769, 0.46478975625042618, 0.46994482528395998, 0.47517519303737737, 0.48048336393045421, 0.48587198734188491, 0.49134386959403253, 0.49690198724154955,
  0.50254950184134772, 0.50828977641064288, 0.51412639381474856, 0.5200631773682336, 0.52610421398361973, 0.53225388026304332, 0.53851687200286191, 0.54489823767243961,
  0.55140341654064129, 0.55803828226258745, 0.56480919291240017, 0.57172304866482582, 0.57878735860284503, 0.58601031847726803, 0.59340090169173343, 0.60096896636523223,
  0.60872538207962201, 0.61668218091520766, 0.62485273870366598, 0.63325199421436607, 0.64189671642726609, 0.6508058334145711, 0.6600008410789997, 0.66950631673192473,
  0.67935057226476536, 0.68956649611707799, 0.70019265508278816, 0.71127476080507601, 0.72286765959357202, 0.73503809243142348, 0.7478686219851951, 0.76146338884989628,
  0.77595685204011555, 0.79152763697249562, 0.80842165152300838, 0.82699329664305032, 0.84778550062398961, 0.87170433238120359, 0.90046992992574648, 0.9381436808621747,
  1 };
static const double zx_norm[129] = { 3.7130862467403634, 3.4426198558966523, 3.2230849845786187, 3.0832288582142136, 2.9786962526450171, 2.8943440070186708, 2.8231253505459666, 2.7611693723841539,
  2.7061135731187225, 2.6564064112581924, 2.6109722484286131, 2.5690336259216391, 2.5300096723854666, 2.4934545220919508, 2.4590181774083502, 2.4264206455302118,
  2.3954342780074676, 2.3658713701139877, 2.3375752413355309, 2.310413683695002, 2.2842740596736566, 2.2590595738653296, 2.2346863955870568, 2.2110814088747279,
  2.1881804320720204, 2.1659267937448408, 2.1442701823562613, 2.1231657086697902, 2.1025731351849988, 2.0824562379877247, 2.0627822745039635, 2.0435215366506694,
  2.024646973372934, 2.0061338699589668, 1.9879595741230607, 1.9701032608497133, 1.9525457295488888, 1.9352692282919002, 1.9182573008597321, 1.9014946531003176,
  1.8849670357028692, 1.8686611409895419, 1.8525645117230871, 1.8366654602533841, 1.8209529965910052, 1.8054167642140488, 1.790046982594619, 1.7748343955807693,
  1.759770224894232, 1.7448461281083765, 1.7300541605582436, 1.7153867407081165, 1.7008366185643009, 1.6863968467734862, 1.6720607540918522, 1.6578219209482075,
  1.6436741568569826, 1.6296114794646783, 1.6156280950371329, 1.601718380215277, 1.5878768648844006, 1.5740982160167498, 1.5603772223598407, 1.5467087798535035,
  1.5330878776675561, 1.5195095847593707, 1.5059690368565504, 1.4924614237746154, 1.4789819769830979, 1.4655259573357946, 1.4520886428822164, 1.4386653166774612,
  1.4252512545068616, 1.4118417124397602, 1.3984319141236063, 1.3850170377251487, 1.3715922024197322, 1.3581524543224228, 1.344692751745713, 1.3312079496576765,
  1.317692783201343, 1.3041418501204216, 1.2905495919178731, 1.2769102735516997, 1.2632179614460282, 1.2494664995643336, 1.2356494832544811, 1.2217602305309625,
  1.2077917504067577, 1.1937367078237722, 1.1795873846544607, 1.1653356361550469, 1.150972842138976, 1.1364898520030755, 1.121876922572254, 1.1071236475235353,
  1.0922188768965537, 1.0771506248819376, 1.0619059636836194, 1.0464709007525803, 1.0308302360564556, 1.0149673952392995, 0.99886423348064346, 0.98250080350276037,
  0.96585507938813064, 0.94890262549791193, 0.93161619660135386, 0.91396525100880177, 0.89591535256623855, 0.87742742909771565, 0.85845684317805082, 0.83895221428120748,
  0.8188539066833177, 0.7980920606262748, 0.77658398787614835, 0.75423066443451003, 0.73091191062188132, 0.70647961131360804, 0.68074791864590423, 0.65347863871504241,
  0.62435859730908827, 0.592962942441978, 0.55869217837551799, 0.52065603872514488, 0.47743783725378786, 0.42654798630330515, 0.36287143102841829, 0.27232086470466382,
  0 };
static const double zy_norm[129] = { 0, 0.0026696290839025036, 0.0055489952208164703, 0.008624484412930471, 0.011839478657982313, 0.015167298010672042, 0.018592102737165814, 0.022103304616111593,
  0.025693291936149616, 0.02935631744025383, 0.033087886146505152, 0.036884388786968772, 0.040742868074790606, 0.044660862200872432, 0.048636295860284055, 0.052667401903503171,
  0.056752663481538582, 0.060890770348566374, 0.065080585213631872, 0.069321117394180259, 0.07361150188475489, 0.07795098251465471, 0.082338898242957412, 0.086774671895542971,
  0.091257800827634711, 0.09578784912257815, 0.10036444102954555, 0.10498725541035454, 0.10965602101581776, 0.11437051244988827, 0.11913054670871859, 0.12393598020398175,
  0.12878670619710397, 0.13368265258464765, 0.13862377998585104, 0.14361008009193299, 0.14864157424369698, 0.15371831220958657, 0.15884037114093508, 0.16400785468492773,
  0.16922089223892475, 0.17447963833240232, 0.17978427212496212, 0.18513499701071343, 0.19053204032091373, 0.19597565311811041, 0.20146611007620324, 0.2070037094418738,
  0.21258877307373611, 0.21822164655637061, 0.22390269938713389, 0.22963232523430271, 0.23541094226572765, 0.24123899354775133, 0.24711694751469673, 0.25304529850976587,
  0.25902456739871077, 0.26505530225816193, 0.27113807914102528, 0.27727350292189773, 0.28346220822601254, 0.28970486044581051, 0.29600215684985581, 0.30235482778947975,
  0.30876363800925194, 0.31522938806815753, 0.32175291587920862, 0.32833509837615238, 0.33497685331697113, 0.34167914123501369, 0.34844296754987247, 0.35526938485154713,
  0.36215949537303321, 0.36911445366827517, 0.37613546951445442, 0.38322381105988362, 0.39038080824138949, 0.39760785649804253, 0.40490642081148837, 0.41227804010702462,
  0.41972433205403825, 0.42724699830956242, 0.43484783025466189, 0.44252871528024662, 0.45029164368692698, 0.45813871627287195, 0.46607215269457097, 0.47409430069824959,
  0.4822076463348387, 0.49041482528932162, 0.49871863547658435, 0.50712205108130459, 0.51562823824987203, 0.52424057267899282, 0.53296265938998755, 0.54179835503172413,
  0.55075179312105527, 0.55982741271069481, 0.56902999107472163, 0.57836468112670236, 0.58783705444182055, 0.59745315095181228, 0.60721953663260486, 0.61714337082656245,
  0.62723248525781461, 0.63749547734314482, 0.64794182111855081, 0.65858200005865364, 0.6694276673577062, 0.68049184100641436, 0.69178914344603581, 0.7033360990258174,
  0.71515150742047706, 0.7272569183545059, 0.7396772436833382, 0.75244155918570377, 0.76558417390923594, 0.7791460859417032, 0.79317701178385924, 0.80773829469612113,
  0.82290721139526202, 0.83878360531064722, 0.85550060788506432, 0.87324304892685356, 0.89228165080230271, 0.91304364799203808, 0.93628268170837103, 0.96359969315576754,
  1 };
