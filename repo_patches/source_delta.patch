From 8a30bd995d6a851df4dcac7ae15a5603538b1149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 01/21] fix: IntegrateSys.state returns the current state (it
 returned None)

---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7621263..7ebc3b2 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -588,4 +588,4 @@ class IntegrateSys(metaclass=ABCMeta):
         """
         current state
         """
-        self.y_hist[0]
+        return self.y_hist[0]
-- 
2.43.0


From bf1c9a056d3be18cae467a93e4fd4719651707f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 02/21] fix: RKIntegrator.step accepts frhs_kwargs (integrate
 with callback_before_step raised TypeError)

---
 ormatex_py/ode_explicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index 55e345d..e78b15a 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -57,7 +57,7 @@ class RKIntegrator(IntegrateSys):
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def step(self, dt: float) -> StepResult:
+    def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
             return self._step_rk4(dt)
         else:
-- 
2.43.0


From a6ccf6b3c431a30e93113709dfc1e1d4d00f292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 03/21] fix: integrate_diffrax takes nsteps from t0 (end time
 ignored t0)

---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 84e75d4..6eaf5af 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,7 +150,7 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = dt * nsteps
+    tf = t0 + dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
-- 
2.43.0


From 3c56f7f88505ac9d711e07d1041673ef4c2e9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:06 +0000
Subject: [PATCH 04/21] fix: integrate_diffrax steps to t0 + i*dt (round-off in
 tf added a step and hit max_steps for t0 != 0)

---
 ormatex_py/integrate_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 6eaf5af..c713355 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,12 +150,12 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = t0 + dt * nsteps
-    step_ctrl = diffrax.ConstantStepSize()
+    ts = t0 + dt * jnp.arange(nsteps + 1)
+    step_ctrl = diffrax.StepTo(ts)
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
             solver,
-            t0, tf, dt, y0,
+            ts[0], ts[-1], None, y0,
             saveat=diffrax.SaveAt(steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
-- 
2.43.0


From 82fadcb9eb842eb142d0f2e0375174f5f87f3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:31 +0000
Subject: [PATCH 05/21] fix: recompute high-order Pade partial fraction tables
 (poles were off by up to 3e-7; pade_16_16 was wrong by 16 at z=0)

---
 ormatex_py/matexp_phi_pfd_dict.py | 384 +++++++++++++++---------------
 1 file changed, 192 insertions(+), 192 deletions(-)

diff --git a/ormatex_py/matexp_phi_pfd_dict.py b/ormatex_py/matexp_phi_pfd_dict.py
index 2469209..f5b8ff7 100644
--- a/ormatex_py/matexp_phi_pfd_dict.py
+++ b/ormatex_py/matexp_phi_pfd_dict.py
@@ -238,83 +238,83 @@ pfd_dict = {
    ],
   1.00000000000000e+00),
 'pade_8_8':
-([  5.67796789779517e+00-1.27078225972097e+01j,
-    8.73657843440534e+00-8.82888500094338e+00j,
-    1.04096815812732e+01-5.23235030528453e+00j,
-    1.11757720865264e+01-1.73522889070665e+00j,
+([  5.6779678977952610e+00-1.2707822597209754e+01j,
+    8.7365784344048052e+00-8.8288850009430782e+00j,
+    1.0409681581273764e+01-5.2323503052850553e+00j,
+    1.1175772086526170e+01-1.7352288907055728e+00j,
    ],
- [ -1.65193072545010e+02+2.19157995335285e+02j,
-    4.26599883763478e+03+2.19879464117052e+02j,
-   -1.46726502179705e+04-1.30835546536543e+04j,
-    1.06438444528869e+04+3.82471699398577e+04j,
+ [ -1.6519307254497079e+02+2.1915799533531236e+02j,
+    4.2659988376343790e+03+2.1987946411946459e+02j,
+   -1.4672650217972672e+04-1.3083554653648593e+04j,
+    1.0643844452883264e+04+3.8247169939871259e+04j,
    ],
   1.00000000000000e+00),
 'pade_10_10':
-([  6.21783246729821e+00-1.64653989181475e+01j,
-    9.77243913371641e+00-1.24499709649411e+01j,
-    1.19350566571826e+01-8.76989437788469e+00j,
-    1.32305819309422e+01-5.22313584161276e+00j,
-    1.38440898108606e+01-1.73533039087163e+00j,
-   ],
- [ -4.28439839038208e+00-5.11065755249477e+02j,
-   -1.13960793160596e+04+6.30112461260688e+03j,
-    9.41190589167495e+04+2.07599514175865e+04j,
-   -2.24510671286932e+05-2.30850608866744e+05j,
-    1.41901976088637e+05+5.53063875406852e+05j,
+([  6.2178324672981962e+00-1.6465398918147176e+01j,
+    9.7724391337179988e+00-1.2449970964943134e+01j,
+    1.1935056657175572e+01-8.7698943778838636e+00j,
+    1.3230581930953740e+01-5.2231358416001799e+00j,
+    1.3844089810854491e+01-1.7353303909024429e+00j,
+   ],
+ [ -4.2843983902640694e+00-5.1106575524959158e+02j,
+   -1.1396079316040399e+04+6.3011246126294564e+03j,
+    9.4119058916586931e+04+2.0759951417875505e+04j,
+   -2.2451067128964860e+05-2.3085060886644907e+05j,
+    1.4190197608749234e+05+5.5306387540452194e+05j,
    ],
   1.00000000000000e+00),
 'pade_12_12':
-([  6.68604661560532e+00-2.02485936144845e+01j,
-    1.06594171817355e+01-1.61058137284905e+01j,
-    1.32220085000048e+01-1.23430699861422e+01j,
-    1.49311424804760e+01-8.74033918662028e+00j,
-    1.59945411994928e+01-5.21813307392645e+00j,
-    1.65068440226856e+01-1.73538714406579e+00j,
-   ],
- [  5.46911825752485e+02+6.80360699243456e+02j,
-    1.61337734195801e+04-2.97018812916309e+04j,
-   -3.54728405043439e+05+1.07516699938843e+05j,
-    1.75603924662652e+06+5.77890603673691e+05j,
-   -3.34000394047559e+06-3.77334398690651e+06j,
-    1.92216841199923e+06+7.94549540651937e+06j,
+([  6.6860466156050666e+00-2.0248593614481639e+01j,
+    1.0659417181751659e+01-1.6105813728514065e+01j,
+    1.3222008499912704e+01-1.2343069986074459e+01j,
+    1.4931142480703540e+01-8.7403391867091305e+00j,
+    1.5994541199202869e+01-5.2181330738915968e+00j,
+    1.6506844022824161e+01-1.7353871440195376e+00j,
+   ],
+ [  5.4691182575163600e+02+6.8036069924681442e+02j,
+    1.6133773418468209e+04-2.9701881291782345e+04j,
+   -3.5472840506535175e+05+1.0751669990568272e+05j,
+    1.7560392466474785e+06+5.7789060329273518e+05j,
+   -3.3400039398810156e+06-3.7733439877526090e+06j,
+    1.9221684130546690e+06+7.9454954061207008e+06j,
    ],
   1.00000000000000e+00),
 'pade_14_14':
-([  7.10217376676230e+00-2.40514760645021e+01j,
-    1.14407047677263e+01-1.97894151950504e+01j,
-    1.43447919238103e+01-1.59464347083066e+01j,
-    1.63976939410561e+01-1.22860821422987e+01j,
-    1.78220011108849e+01-8.72320835790319e+00j,
-    1.87262917005815e+01-5.21510664988429e+00j,
-    1.91663427891784e+01-1.73542205224497e+00j,
-   ],
- [ -1.36924413898026e+03-2.94842073103237e+02j,
-    6.59319538601401e+03+7.79273680273329e+04j,
-    8.24845869117295e+05-8.75088260655082e+05j,
-   -8.28511843071903e+06+1.36992091801833e+06j,
-    3.00847033195425e+07+1.22338494631399e+07j,
-   -4.89377678468590e+07-5.91446531945041e+07j,
-    2.63083230322416e+07+1.13711667927895e+08j,
+([  7.1021737667612523e+00-2.4051476064509050e+01j,
+    1.1440704767655038e+01-1.9789415194978318e+01j,
+    1.4344791924343635e+01-1.5946434708369937e+01j,
+    1.6397693939976950e+01-1.2286082142941593e+01j,
+    1.7822001110750090e+01-8.7232083566048946e+00j,
+    1.8726291703219104e+01-5.2151066487633333e+00j,
+    1.9166342787293932e+01-1.7354220577285064e+00j,
+   ],
+ [ -1.3692441389723160e+03-2.9484207309257869e+02j,
+    6.5931953768994845e+03+7.7927368030201178e+04j,
+    8.2484586874635576e+05-8.7508826119423739e+05j,
+   -8.2851184283792526e+06+1.3699209099504172e+06j,
+    3.0084703342613041e+07+1.2233849446415409e+07j,
+   -4.8937767864689641e+07-5.9144653292303704e+07j,
+    2.6308323130471569e+07+1.1371166784887165e+08j,
    ],
   1.00000000000000e+00),
 'pade_16_16':
-([  7.47846359434389e+00-2.78700569516453e+01j,
-    1.21424827653080e+01-2.34957498768370e+01j,
-    1.53464815846813e+01-1.95753948759233e+01j,
-    1.76959363887348e+01-1.58575457183105e+01j,
-    1.94246526513030e+01-1.22515217728443e+01j,
-    2.06502392671595e+01-8.71232672952572e+00j,
-    2.14379715420598e+01-5.21313415919739e+00j,
-    2.18237722064098e+01-1.73544479521009e+00j,
-   ],
- [  1.90008725832969e+03-9.91098564053790e+02j,
-   -1.04343142558914e+05-1.28989202208025e+05j,
-   -7.60446708082224e+05+3.35225211392260e+06j,
-    2.55308244171525e+07-1.95447305410687e+07j,
-   -1.66999371998587e+08+1.24432648004869e+07j,
-    4.90194019013028e+08+2.28187105482266e+08j,
-   -7.10515108893301e+08-9.03571038487383e+08j,
-    3.62652953333272e+08+1.62341769071525e+09j,
+([  7.4784635943217452e+00-2.7870056951626765e+01j,
+    1.2142482765817400e+01-2.3495749876961778e+01j,
+    1.5346481581734320e+01-1.9575394876738137e+01j,
+    1.7695936393005571e+01-1.5857545711778743e+01j,
+    1.9424652665127006e+01-1.2251521782043534e+01j,
+    2.0650239204682926e+01-8.7123267612192166e+00j,
+    2.1437971637956029e+01-5.2131340145165792e+00j,
+    2.1823772157355005e+01-1.7354450548714409e+00j,
+   ],
+ [  1.9000872583470859e+03-9.9109856396971907e+02j,
+   -1.0434314265370999e+05-1.2898920219528225e+05j,
+   -7.6044671263805113e+05+3.3522521039718315e+06j,
+    2.5530824591479816e+07-1.9544730694394413e+07j,
+   -1.6699937069271564e+08+1.2443267177061960e+07j,
+    4.9019400340172857e+08+2.2818712025977644e+08j,
+   -7.1051516994616878e+08-9.0357104919201875e+08j,
+    3.6265287441370940e+08+1.6234176740168822e+09j,
    ],
   1.00000000000000e+00),
 
@@ -343,83 +343,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_7_8':
-([  4.68549463282126e+00-1.20105785998140e+01j,
-    7.73868814683028e+00-8.37087930623761e+00j,
-    9.40637121369067e+00-4.96921728762378e+00j,
-    1.01694460066578e+01-1.64920179682108e+00j,
+([  4.6854946328211966e+00-1.2010578599813790e+01j,
+    7.7386881468305484e+00-8.3708793062379829e+00j,
+    9.4063712136907398e+00-4.9692172876232936e+00j,
+    1.0169446006657514e+01-1.6492017968222277e+00j,
    ],
- [ -9.49411688907749e+01+2.54766624817857e+01j,
-    1.33486473746002e+03+7.02431010498788e+02j,
-   -3.84854441543743e+03-5.69031543380038e+03j,
-    2.61262084686885e+03+1.35490601474420e+04j,
+ [ -9.4941168890791303e+01+2.5476662481767772e+01j,
+    1.3348647374600173e+03+7.0243101049801373e+02j,
+   -3.8485444154374368e+03-5.6903154338043132e+03j,
+    2.6126208468682107e+03+1.3549060147438920e+04j,
    ],
   0.00000000000000e+00),
 'pade_9_10':
-([  5.22545336734417e+00-1.57295290456389e+01j,
-    8.77643464008579e+00-1.19218538983026e+01j,
-    1.09343034305864e+01-8.40967299600432e+00j,
-    1.22261314841869e+01-5.01271926366086e+00j,
-    1.28376770777968e+01-1.66606258419856e+00j,
-   ],
- [  1.18741401899989e+02-1.41303692321679e+02j,
-   -4.65536084639950e+03-1.90177301373340e+00j,
-    2.89165722700281e+04+1.81691851003442e+04j,
-   -6.12769997076806e+04-9.54085989073073e+04j,
-    3.69020468769566e+04+1.96990463528937e+05j,
+([  5.2254533673443611e+00-1.5729529045639259e+01j,
+    8.7764346400826092e+00-1.1921853898301213e+01j,
+    1.0934303430600009e+01-8.4096729960030920e+00j,
+    1.2226131484162151e+01-5.0127192636768640e+00j,
+    1.2837677077810870e+01-1.6660625841623014e+00j,
+   ],
+ [  1.1874140189989652e+02-1.4130369232172347e+02j,
+   -4.6553608463981736e+03-1.9017730305830138e+00j,
+    2.8916572270324232e+04+1.8169185100096442e+04j,
+   -6.1276999705851507e+04-9.5408598907324020e+04j,
+    3.6902046880025548e+04+1.9699046352900364e+05j,
    ],
   0.00000000000000e+00),
 'pade_11_12':
-([  5.69357760582991e+00-1.94846293682976e+01j,
-    9.66460291604750e+00-1.55269887259726e+01j,
-    1.22232279800981e+01-1.19133708538269e+01j,
-    1.39287203046700e+01-8.44249696597909e+00j,
-    1.49894720849745e+01-5.04267301327654e+00j,
-    1.55003991083799e+01-1.67740907543385e+00j,
-   ],
- [ -1.97704170847133e+01+3.16226175536364e+02j,
-    1.06011986654780e+04-5.99471349030070e+03j,
-   -1.31630215734835e+05-1.58024463608002e+04j,
-    5.40875915627455e+05+3.73470946067090e+05j,
-   -9.41733184605207e+05-1.51555073365930e+06j,
-    5.21912056860810e+05+2.84094757356084e+06j,
+([  5.6935776058304848e+00-1.9484629368297686e+01j,
+    9.6646029160387776e+00-1.5526988725976901e+01j,
+    1.2223227980126936e+01-1.1913370853790163e+01j,
+    1.3928720304651380e+01-8.4424969660733105e+00j,
+    1.4989472084936066e+01-5.0426730131941984e+00j,
+    1.5500399108416358e+01-1.6774090754267155e+00j,
+   ],
+ [ -1.9770417084490745e+01+3.1622617553652327e+02j,
+    1.0601198665406648e+04-5.9947134901648496e+03j,
+   -1.3163021574016684e+05-1.5802446359524667e+04j,
+    5.4087591559267475e+05+3.7347094605115167e+05j,
+   -9.4173318462160951e+05-1.5155507337393535e+06j,
+    5.2191205652077950e+05+2.8409475736952336e+06j,
    ],
   0.00000000000000e+00),
 'pade_13_14':
-([  6.10953706591465e+00-2.32659732506401e+01j,
-    1.04466532469207e+01-1.91718385658776e+01j,
-    1.33474860188306e+01-1.54639361326311e+01j,
-    1.53970406477107e+01-1.19224339985898e+01j,
-    1.68185419182397e+01-8.46894658249756e+00j,
-    1.77208535276966e+01-5.06457474988492e+00j,
-    1.81598875746869e+01-1.68556744377056e+00j,
-   ],
- [ -2.85701447048604e+02-4.22573770325228e+02j,
-   -1.39506796509646e+04+2.46549472535032e+04j,
-    4.07088889460134e+05-1.47454862119014e+05j,
-   -2.95428486119008e+06-5.61988919680626e+05j,
-    9.34405927211906e+06+6.84178627383522e+06j,
-   -1.41689554474545e+07-2.33291738715078e+07j,
-    7.38633554605862e+06+4.07747800108961e+07j,
+([  6.1095370659108257e+00-2.3265973250646894e+01j,
+    1.0446653246918093e+01-1.9171838565801362e+01j,
+    1.3347486018949645e+01-1.5463936132864211e+01j,
+    1.5397040647550467e+01-1.1922433998380844e+01j,
+    1.6818541917529050e+01-8.4689465826821113e+00j,
+    1.7720853529720298e+01-5.0645747484236088e+00j,
+    1.8159887573421621e+01-1.6855674473441327e+00j,
+   ],
+ [ -2.8570144704750516e+02-4.2257377031971964e+02j,
+   -1.3950679653727644e+04+2.4654947254365048e+04j,
+    4.0708888935434329e+05-1.4745486220113057e+05j,
+   -2.9542848615167881e+06-5.6198892083615554e+05j,
+    9.3440592733118702e+06+6.8417862739121541e+06j,
+   -1.4168955460488973e+07-2.3329173881152872e+07j,
+    7.3863355404403238e+06+4.0774780001204327e+07j,
    ],
   0.00000000000000e+00),
 'pade_15_16':
-([  6.48562832446504e+00-2.70674101802466e+01j,
-    1.11489235555244e+01-2.28473895034394e+01j,
-    1.43502762939532e+01-1.90510873637885e+01j,
-    1.66967416249338e+01-1.54420808743659e+01j,
-    1.84227189032095e+01-1.19357250047256e+01j,
-    1.96460972994385e+01-8.49034450829802e+00j,
-    2.04322978545394e+01-5.08129521532765e+00j,
-    2.08173161439358e+01-1.69171657421277e+00j,
-   ],
- [  7.46675121903952e+02+2.33418714884332e+02j,
-   -2.91507593718632e+03-6.02533142595452e+04j,
-   -8.32343305819814e+05+9.23999524382099e+05j,
-    1.12187257385282e+07-2.85904191440928e+06j,
-   -5.84396390181135e+07-1.38271664342395e+07j,
-    1.53739961173302e+08+1.17150191552697e+08j,
-   -2.10257270578443e+08-3.52009232070284e+08j,
-    1.04572686874704e+08+5.83415456608851e+08j,
+([  6.4856283244947779e+00-2.7067410180245165e+01j,
+    1.1148923555154433e+01-2.2847389503912357e+01j,
+    1.4350276293898503e+01-1.9051087358917957e+01j,
+    1.6696741637279381e+01-1.5442080892659442e+01j,
+    1.8422718844967523e+01-1.1935724977767443e+01j,
+    1.9646097429403270e+01-8.4903444941219188e+00j,
+    2.0432297698379777e+01-5.0812953398998237e+00j,
+    2.0817316216422338e+01-1.6917163428815605e+00j,
+   ],
+ [  7.4667512193457594e+02+2.3341871487568253e+02j,
+   -2.9150759384654289e+03-6.0253314214970334e+04j,
+   -8.3234331208368705e+05+9.2399952597057924e+05j,
+    1.1218725580461837e+07-2.8590420761325522e+06j,
+   -5.8439638920010783e+07-1.3827169228737902e+07j,
+    1.5373997073019460e+08+1.1715018184900032e+08j,
+   -2.1025724343844497e+08-3.5200923255880773e+08j,
+    1.0457270576069954e+08+5.8341546534508431e+08j,
    ],
   0.00000000000000e+00),
 
@@ -448,83 +448,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_6_8':
-([  3.69485632938675e+00-1.12696993000969e+01j,
-    6.74126181787975e+00-7.88594968948569e+00j,
-    8.40225298514781e+00-4.69116275605494e+00j,
-    9.16162886758569e+00-1.55837739405967e+00j,
+([  3.6948563293868468e+00-1.1269699300097058e+01j,
+    6.7412618178789652e+00-7.8859496894854111e+00j,
+    8.4022529851495200e+00-4.6911627560543323e+00j,
+    9.1616288675846675e+00-1.5583773940619035e+00j,
    ],
- [ -3.18487263065919e+01-1.49528186623762e+01j,
-    3.12817976033756e+02+4.28594613374877e+02j,
-   -7.82684808481826e+02-2.25394054615805e+03j,
-    5.01715558761609e+02+4.73499730980113e+03j,
+ [ -3.1848726306593758e+01-1.4952818662368040e+01j,
+    3.1281797603338504e+02+4.2859461337512329e+02j,
+   -7.8268480848475042e+02-2.2539405461580932e+03j,
+    5.0171555875795917e+02+4.7349973098000837e+03j,
    ],
   0.00000000000000e+00),
 'pade_8_10':
-([  4.23452249479674e+00-1.49570437812812e+01j,
-    7.78114626446633e+00-1.13688916490507e+01j,
-    9.93338372217297e+00-8.03310633426764e+00j,
-    1.12208537793930e+01-4.79296416756328e+00j,
-    1.18300937391710e+01-1.59375300588419e+00j,
-   ],
- [  6.60829706237551e+01-8.73837399434558e+00j,
-   -1.43520908051772e+03-8.37054742039505e+02j,
-    7.31487012615475e+03+9.59090409250811e+03j,
-   -1.40890558564557e+04-3.71787911863322e+04j,
-    8.14331184019458e+03+6.95373557758765e+04j,
+([  4.2345224947970008e+00-1.4957043781281561e+01j,
+    7.7811462644646161e+00-1.1368891649049933e+01j,
+    9.9333837221750017e+00-8.0331063342662965e+00j,
+    1.1220853779395195e+01-4.7929641675656685e+00j,
+    1.1830093739168188e+01-1.5937530058858136e+00j,
+   ],
+ [  6.6082970623743790e+01-8.7383739943858210e+00j,
+   -1.4352090805160392e+03-8.3705474204215193e+02j,
+    7.3148701261657097e+03+9.5909040925091831e+03j,
+   -1.4089055856525809e+04-3.7178791186370880e+04j,
+    8.1433118402523960e+03+6.9537355775802542e+04j,
    ],
   0.00000000000000e+00),
 'pade_10_12':
-([  4.70228142811029e+00-1.86890942420089e+01j,
-    8.67056097339053e+00-1.49254273078317e+01j,
-    1.12246068339195e+01-1.14673703426701e+01j,
-    1.29259172791502e+01-8.13362237863904e+00j,
-    1.39836392311261e+01-4.86081102719189e+00j,
-    1.44929942543034e+01-1.61733100604584e+00j,
-   ],
- [ -8.49832831880236e+01+7.75367860453999e+01j,
-    4.37578428468484e+03+2.83201434389032e+02j,
-   -4.04045377690810e+04-2.46586957214072e+04j,
-    1.44784834972791e+05+1.82669966461450e+05j,
-   -2.34618958097715e+05-5.84473205187368e+05j,
-    1.25947859854496e+05+1.00930377761925e+06j,
+([  4.7022814281112533e+00-1.8689094242008188e+01j,
+    8.6705609733885627e+00-1.4925427307846883e+01j,
+    1.1224606833892731e+01-1.1467370342599001e+01j,
+    1.2925917279278435e+01-8.1336223787764119e+00j,
+    1.3983639230908835e+01-4.8608110270819562e+00j,
+    1.4492994254420182e+01-1.6173310060590254e+00j,
+   ],
+ [ -8.4983283188157031e+01+7.7536786045525304e+01j,
+    4.3757842846206859e+03+2.8320143434613755e+02j,
+   -4.0404537770168077e+04-2.4658695724549303e+04j,
+    1.4478483497752697e+05+1.8266996643088225e+05j,
+   -2.3461895806633282e+05-5.8447320525110373e+05j,
+    1.2594785985754138e+05+1.0093037775911577e+06j,
    ],
   0.00000000000000e+00),
 'pade_12_14':
-([  5.11787189461895e+00-2.24527018231594e+01j,
-    9.45335791648157e+00-1.85334197602768e+01j,
-    1.23505043635501e+01-1.49656842626999e+01j,
-    1.43962858429022e+01-1.15471965661277e+01j,
-    1.58146338365384e+01-8.20671881319247e+00j,
-    1.67147257883642e+01-4.90937805514902e+00j,
-    1.71526203575448e+01-1.63417615340624e+00j,
-   ],
- [  3.61443014831873e+01-1.82295255726243e+02j,
-   -9.29367610371230e+03+4.34390374321708e+03j,
-    1.54332004514095e+05+2.08655132031941e+04j,
-   -9.16398034468283e+05-5.62363547717655e+05j,
-    2.60965182162727e+06+3.18944066032174e+06j,
-   -3.73564354639738e+06-8.93145939977566e+06j,
-    1.89731526905100e+06+1.45505505433651e+07j,
+([  5.1178718946197534e+00-2.2452701823158250e+01j,
+    9.4533579164709032e+00-1.8533419760279187e+01j,
+    1.2350504363625246e+01-1.4965684262793458e+01j,
+    1.4396285842467995e+01-1.1547196565555256e+01j,
+    1.5814633837908431e+01-8.2067188145208068e+00j,
+    1.6714725786257606e+01-4.9093780536549509e+00j,
+    1.7152620358650065e+01-1.6341761544026026e+00j,
+   ],
+ [  3.6144301483368992e+01-1.8229525572651588e+02j,
+   -9.2936761037053693e+03+4.3439037431442775e+03j,
+    1.5433200450442889e+05+2.0865513181860886e+04j,
+   -9.1639803452655289e+05-5.6236354848752753e+05j,
+    2.6096518237317661e+06+3.1894406540421648e+06j,
+   -3.7356435361698372e+06-8.9314594151886553e+06j,
+    1.8973152742624171e+06+1.4550550539597422e+07j,
    ],
   0.00000000000000e+00),
 'pade_14_16':
-([  5.49361318603890e+00-2.62399655049460e+01j,
-    1.01560781516715e+01-2.21798376257454e+01j,
-    1.33544760010611e+01-1.85117397684658e+01j,
-    1.56976183436254e+01-1.50149789135570e+01j,
-    1.74205593555198e+01-1.16112396752170e+01j,
-    1.86414951180119e+01-8.26233278072527e+00j,
-    1.94260023927384e+01-4.94590541832561e+00j,
-    1.98101574513328e+01-1.64681446196597e+00j,
-   ],
- [  1.26981292664858e+02+2.55930094697910e+02j,
-    1.24113743672713e+04-1.80844288017939e+04j,
-   -4.27793284860080e+05+1.38613103424770e+05j,
-    4.10778976637045e+06+6.84330756086048e+05j,
-   -1.83663341106143e+07-1.11861218996792e+07j,
-    4.43633025775970e+07+5.28146014031224e+07j,
-   -5.78177959583672e+07-1.34031344688548e+08j,
-    2.81283017741330e+07+2.08871467218483e+08j,
+([  5.4936131860386359e+00-2.6239965504947193e+01j,
+    1.0156078151693409e+01-2.2179837625772549e+01j,
+    1.3354476000892422e+01-1.8511739768081551e+01j,
+    1.5697618343948905e+01-1.5014978916141414e+01j,
+    1.7420559355425990e+01-1.1611239664288957e+01j,
+    1.8641495118467965e+01-8.2623328101026363e+00j,
+    1.9426002390748188e+01-4.9459053656627647e+00j,
+    1.9810157452784484e+01-1.6468145301525536e+00j,
+   ],
+ [  1.2698129266475361e+02+2.5593009469756510e+02j,
+    1.2411374366306938e+04-1.8084428802305614e+04j,
+   -4.2779328498406213e+05+1.3861310325572061e+05j,
+    4.1077897601127857e+06+6.8433074982215685e+05j,
+   -1.8366334182227235e+07-1.1186121985333912e+07j,
+    4.4363301752616599e+07+5.2814600917658925e+07j,
+   -5.7817798734076127e+07-1.3403134545797966e+08j,
+    2.8128296332899068e+07+2.0887146667673543e+08j,
    ],
   0.00000000000000e+00),
 
-- 
2.43.0


From d423f1c6d7abe72f55e2707cb55b8f4f1c129589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:10 +0000
Subject: [PATCH 06/21] fix: imaginary Leja interpolation could report
 convergence on an error estimate of the wrong sign or scale

---
 ormatex_py/matexp_leja.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cae41ad..55b454f 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -274,7 +274,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         # unpack args
         i, rm, pm, qm, _ = args
         # compute error estimate
-        err_r = jnp.real(coeffs[i-1])*jnp.linalg.norm(rm)
+        err_r = jnp.abs(jnp.real(coeffs[i-1]))*jnp.linalg.norm(rm)
         # compute new term in the polynomial approx
         qm = (dt*a_lo.matvec(rm) - shift*rm)/scale
         # div diff coeffs[i] even is real
@@ -292,7 +292,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         iter_check = (i < n_leja)
         return (tol_check) & (iter_check) # | (i < 3)
     i, rm, pm, _qm, err = lax.while_loop(
-            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2))
+            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, beta*1.0e2))
     converged = (i < n_leja) & (err < beta*1.0e3)
     # expmv, n_iters, converged
     return pm, i, converged
-- 
2.43.0


From 3b74cb97831e689775d11c3c8fd40869ca406100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 07/21] fix: newton_poly_div_diff dropped the imaginary parts
 for real values at complex points

---
 ormatex_py/matexp_poly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index fe10abe..f29ea83 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -40,7 +40,8 @@ def newton_poly_div_diff(x: jax.Array, y: jax.Array):
         y: value of the function at x points.
     """
     m = len(x)
-    a = y.at[:].get() # TODO why not a = y?
+    # complex points give complex coefficients, also for real values
+    a = y.astype(jnp.result_type(x, y))
     for k in range(1, m):
         a = a.at[k:m].set( (a[k:m] - a[k-1]) / (x[k:m] - x[k-1]) )
     return a
-- 
2.43.0


From e1ec3d43dcc09fd70d529e8f65fd5a29d79b31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 08/21] fix: expm_taylor applies the argument scale to every
 power of A

---
 ormatex_py/matexp_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index f29ea83..5aa5dc9 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -115,7 +115,7 @@ def expm_taylor(A: jax.Array, shift: float, scale: float, p: int=20):
     for i in range(p):
         # powers of A
         ts_expm = ts_expm + M / jax.scipy.special.factorial(i + 1)
-        M = A @ M
+        M = (scale * A) @ M
     return jnp.exp(shift) * ts_expm
 
 
-- 
2.43.0


From bc0bb1a2916d89486a7c5567597ba9c52c5c5f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 09/21] fix: leja_coeffs_ts_phi first coefficient is phi_k, not
 exp, for k > 0

---
 ormatex_py/matexp_poly.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index 5aa5dc9..d817bdd 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -293,9 +293,12 @@ def leja_coeffs_ts_phi(leja_x: jax.Array, shift: float, scale: float, h: float=1
             for i in range(j+1, m):
                 F[j, i] = h * ((z[i]) * F[j, i] + scale * F[j, i-1]) / (l + i - j + k - 1)
                 F[i, j] = F[i, j] + F[j, i]
-    # for j in range(0, m):
-    #     F[j, j] = np.exp(h*(z[j]))
-    np.fill_diagonal(F, np.exp(h*(z)))
+    # the diagonal holds phi_k(h*z) itself
+    if k == 0:
+        diag_F = np.exp(h*(z))
+    else:
+        diag_F = sum((h*z)**i / sp.special.factorial(i + k) for i in range(60))
+    np.fill_diagonal(F, diag_F)
     # set upper triangle to 0
     F = np.tril(F)
     if full:
-- 
2.43.0


From f17ccd582484d52e3f9e3434888b5a60b4873c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:38 +0000
Subject: [PATCH 10/21] fix: leja_coeffs_ts_phi_jax raised NotImplementedError
 (fill_diagonal needs inplace=False); first coefficient is phi_k

---
 ormatex_py/matexp_poly.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index d817bdd..2bba1f2 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -336,9 +336,10 @@ def leja_coeffs_ts_phi_jax(leja_x: jax.Array, shift: float, scale: float, h: flo
             for i in range(j+1, m):
                 F = F.at[j, i].set( h * ((z[i]) * F[j, i] + scale * F[j, i-1]) / (l + i - j + k - 1) )
                 F = F.at[i, j].set( F[i, j] + F[j, i] )
-    # for j in range(0, m):
-    #     F = F.at[j, j].set( jnp.exp(h*(z[j])) )
-    jnp.fill_diagonal(F,  jnp.exp(h*(z)) )
+    # the diagonal holds phi_k(h*z) itself
+    i_diag = jnp.arange(60)
+    phi_k_z = jnp.sum((h*z)[:, None]**i_diag / jax.scipy.special.factorial(i_diag + k), axis=1)
+    F = jnp.fill_diagonal(F, phi_k_z.astype(F.dtype), inplace=False)
     # extract the first column
     coeffs = F.at[:, 0].get()
     return coeffs
-- 
2.43.0


From 673661ad6852ef47a231cf0f30141c8e9327045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 11/21] fix: gen_leja_fast initial products included unset
 points, so e.g. half of [-1,0] never got a point

---
 ormatex_py/matexp_leja.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 55b454f..fc900d6 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -145,8 +145,9 @@ def gen_leja_fast(a: float=-2., b: float=2., n: int=100):
     zs[0] = (zt[1]+zt[2])/2.
     zs[1] = (zt[2]+zt[0])/2.
     zprod = np.zeros(n)
-    zprod[0] = np.prod(zs[0]- np.asarray(zt))
-    zprod[1] = np.prod(zs[1]-np.asarray(zt))
+    # distances to the first 3 points only (the rest of zt is not set yet)
+    zprod[0] = np.prod(zs[0]-zt[0:3])
+    zprod[1] = np.prod(zs[1]-zt[0:3])
     index = np.zeros((n,2), dtype=int)
     index[0,0] = 1
     index[0,1] = 2
-- 
2.43.0


From 6ca26ab97ca0cf4dc96d4ee186057a26e29ca6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 12/21] fix: FdJacLinOp finite differences at u = 0 divided by
 a zero step (NaN)

---
 ormatex_py/ode_sys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ebc3b2..2054222 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -326,7 +326,8 @@ class FdJacLinOp(SysJacLinOp):
             v: target vector to apply linop to
         """
         u_norm_1 = jnp.linalg.norm(self._u, 1)
-        scaled_eps = self._eps * u_norm_1
+        # absolute perturbation if the state vanishes
+        scaled_eps = self._eps * jnp.where(u_norm_1 > 0., u_norm_1, 1.0)
         ieps = self._scale / scaled_eps
         u_pert = self._u + scaled_eps*v
 
-- 
2.43.0


From 499bcdabefea4df72268ff879c691a31d2f8d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 13/21] fix: AdJacLinOp linearised at an integer time raised
 ValueError in matvec

---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 2054222..fced3a0 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -259,7 +259,7 @@ class AdJacLinOp(SysJacLinOp):
     def __init__(self, t, u, frhs: eqx.Module, frhs_kwargs: dict={}, **kwargs):
         super().__init__(t, u, frhs, frhs_kwargs, **kwargs)
         self._frhs_u, self._fjac_u = jax.linearize(
-                partial(self._frhs, **self._frhs_kwargs), self._t, self._u)
+                partial(self._frhs, **self._frhs_kwargs), 1.0*self._t, self._u)
 
     @jax.jit
     def _matvec(self, v: jax.Array) -> jax.Array:
-- 
2.43.0


From e4ff9239d82603ecca136f759c908cc758928d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 14/21] fix: NonlinearBateman ignored its tank_vol argument

---
 ormatex_py/progression/bateman_nonlin_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_nonlin_sys.py b/ormatex_py/progression/bateman_nonlin_sys.py
index f0628f1..261912e 100644
--- a/ormatex_py/progression/bateman_nonlin_sys.py
+++ b/ormatex_py/progression/bateman_nonlin_sys.py
@@ -123,7 +123,7 @@ class NonlinearBateman(OdeSplitSys):
         self.fis_vec = fission_vec
 
     def _frhs(self, t, u, **kwargs):
-        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g)
+        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g, tank_vol=self.tank_vol)
         bat = self.bat_mat @ u
         trans = self.n_phi * (self.trans_mat @ u)
         fis = self.n_phi * self.fis_vec
-- 
2.43.0


From d2d8e72783593581ed4fdd9f999aa45472cf38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:05 +0000
Subject: [PATCH 15/21] fix: RAD_SEM (3 species) linear part negated a BCSR
 array, which jax does not implement

---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 10791c0..ef4db27 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -98,7 +98,7 @@ class RAD_SEM(OdeSplitSys):
         # only use Bateman terms for L
         #L = jnp.kron(self.bat_mat, jnp.eye(Ndof))
         # only use adv-diff terms for L
-        L = jnp.kron(jnp.eye(n), (- self.A / self.Ml.reshape((-1, 1))).todense())
+        L = jnp.kron(jnp.eye(n), - self.A.todense() / self.Ml.reshape((-1, 1)))
         #print(L)
         return MatrixLinOp(L)
 
-- 
2.43.0


From cfd3cd773e832b2c14c3995609c42e1885afc54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 16/21] fix: ElementLinePp_nodal.lbasis returned values at the
 previous points when asked for as many other points

---
 ormatex_py/progression/element_line_pp_nodal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/element_line_pp_nodal.py b/ormatex_py/progression/element_line_pp_nodal.py
index 543099c..2cd8fd7 100644
--- a/ormatex_py/progression/element_line_pp_nodal.py
+++ b/ormatex_py/progression/element_line_pp_nodal.py
@@ -51,6 +51,7 @@ class ElementLinePp_nodal(ElementH1):
         self.doflocs = self.quad[0].T
         self.P = np.zeros((0, 0))
         self.dP = np.zeros((0, 0, 1))
+        self.X = None
         self.p = p
 
         # get a barycentric interpolator for each Lagrange basis function y_ik = delta_ik
@@ -68,7 +69,8 @@ class ElementLinePp_nodal(ElementH1):
 
     def lbasis(self, X, i):
 
-        if self.P.shape[1] != X.shape[1]:
+        if self.X is None or not np.array_equal(self.X, X):
             self.P, self.dP = self._reval_legendre(X[0, :], self.p)
+            self.X = np.array(X)
 
         return self.P[i], self.dP[i]
-- 
2.43.0


From 06f711943ed29e5e984bd0af4cdaff11ea51ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 17/21] fix: AdDiffSEM with zero velocity assembled NaN (0/0 in
 the SUPG parameter)

---
 ormatex_py/progression/advection_diffusion_1d.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index ba8ac74..5910998 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -49,7 +49,9 @@ def tau_upwind_f(w):
     Computes the SUPG stabilization parameter using the standard
     upwind formulation.
     """
-    return w['tau'] * w.h[:] / (2 * vel_f(**w))
+    vel = vel_f(**w)
+    # no advection, no stabilization
+    return w['tau'] * w.h[:] / (2 * np.where(vel == 0.0, 1.0, vel))
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0


From f9d77e6bc4538b68b1b8eda2b8134e6d2013b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 18/21] fix: rhs_supg subtracted the SUPG term of the source,
 inconsistent with mass_supg and adv_diff_cons_supg

---
 ormatex_py/progression/advection_diffusion_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index 5910998..b47b279 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -121,7 +121,7 @@ def rhs_supg(v, w):
     r = src_f(**w) * v
     tau = tau_upwind_f(w)
     stab_f =  dot(tau * vel_f(**w), grad(v)) * src_f(**w)
-    return r - stab_f
+    return r + stab_f
 
 @fem.BilinearForm
 def mass(u, v, _):
-- 
2.43.0


From f6c1b6830f70235a847dec46f717312902c284d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:55 +0000
Subject: [PATCH 19/21] fix: Leja methods failed (NaN shift and scale) when the
 augmented operator is nilpotent

---
 ormatex_py/matexp_leja.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index fc900d6..97b2381 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -219,7 +219,8 @@ def power_iter(a_lop: LinOp, b0: jax.Array, iter: int, tol: float=5.0e-2):
                 (b_k.transpose() @ b_k)
         b_k1_norm = jnp.linalg.norm(b_k1)
         # eig_new = b_k1_norm / jnp.linalg.norm(b_k)
-        b_k = b_k1 / b_k1_norm
+        # keep b_k if it is in the null space of A
+        b_k = jnp.where(b_k1_norm > 0., b_k1 / b_k1_norm, b_k)
         i += 1
         return i, b_k, eig_new, eig_old
     def cond_power_iter(args):
@@ -479,6 +480,8 @@ def leja_shift_scale(a_tilde_lo: LinOp, dim: int, max_power_iter: int=20, b0=Non
         b0 = jax.random.uniform(jax.random.key(42), (dim,))
     max_eig, b, iters = power_iter(a_tilde_lo, b0, max_power_iter)
     max_eig *= scale_factor
+    # nilpotent A: the leja points still need an interval of nonzero length
+    max_eig = jnp.where(max_eig == 0., -1., max_eig)
     alpha = max_eig
     beta = 0.  # assume min |eig(A)| is 0
     shift = (alpha - beta) / 2.
-- 
2.43.0


From 55d1958d7d5899c34212af8a5f6f26840f4e2064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:55 +0000
Subject: [PATCH 20/21] fix: SUPG stabilization added negative diffusion for
 negative velocities

---
 ormatex_py/progression/advection_diffusion_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index b47b279..40399b3 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -51,7 +51,7 @@ def tau_upwind_f(w):
     """
     vel = vel_f(**w)
     # no advection, no stabilization
-    return w['tau'] * w.h[:] / (2 * np.where(vel == 0.0, 1.0, vel))
+    return w['tau'] * w.h[:] / (2 * np.where(vel == 0.0, 1.0, np.abs(vel)))
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0


From 34bf507695241bf78b67f89012ed5fdc9d5465d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:42 +0000
Subject: [PATCH 21/21] fix: pass frhs_kwargs to every right-hand side
 evaluation of a step

---
 ormatex_py/ode_exp.py      | 84 +++++++++++++++++++-------------------
 ormatex_py/ode_explicit.py | 16 ++++----
 ormatex_py/ode_sys.py      |  4 +-
 3 files changed, 52 insertions(+), 52 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 9689a4e..6fd11c5 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -159,7 +159,7 @@ class ExpRBIntegrator(IntegrateSys):
         fytt = sys_jac_lop._fdt()
 
         # residual
-        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
 
         # use kiops to save 1 calls to arnoldi
         vb0 = jnp.zeros(yt.shape)
@@ -197,7 +197,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_2 = yt \
             + dt*phi_linop(sys_jac_lop, dt, fyt, 1, self.max_krylov_dim, self.iom) \
             + phi2_v
-        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v)
+        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
 
         # compute final update
         y_new = y_2 + 2.*dt*phi_linop(sys_jac_lop, dt, r_2, 3,
@@ -246,7 +246,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_2 = yt \
                 + c_2*dt*phi_linop(sys_jac_lop, c_2*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v_2
-            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2)
+            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2, frhs_kwargs=frhs_kwargs)
             return r_2
 
         # compute U_{n3}
@@ -256,7 +256,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_3 = yt \
                 + c_3*dt*phi_linop(sys_jac_lop, c_3*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v
-            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v)
+            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
             return y_3, r_3
 
         # with ThreadPoolExecutor(max_workers=2) as executor:
@@ -276,10 +276,10 @@ class ExpRBIntegrator(IntegrateSys):
         return StepResult(t+dt, dt, y_new, y_err)
 
     @jax.jit
-    def _step_exprb2_jit(t, yt, dt, sys):
+    def _step_exprb2_jit(t, yt, dt, sys, frhs_kwargs={}):
         print("jit-compiling exprb2_dense kernel")
 
-        sys_jac_lop = sys.fjac(t, yt)
+        sys_jac_lop = sys.fjac(t, yt, frhs_kwargs=frhs_kwargs)
         fyt = sys_jac_lop._frhs_cached()
         fytt = sys_jac_lop._fdt()
         J = sys_jac_lop.dense()
@@ -291,7 +291,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_err = -1.
         return y_new, y_err
 
-    def _step_exprb2_dense(self, dt: float) -> StepResult:
+    def _step_exprb2_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         r"""
         Exponential Euler,
         computes the solution update by:
@@ -300,7 +300,7 @@ class ExpRBIntegrator(IntegrateSys):
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys)
+        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
@@ -414,7 +414,7 @@ class ExpRBIntegrator(IntegrateSys):
             else:
                 return self._step_exprb3(dt, frhs_kwargs)
         elif self.method == "exprb2_dense":
-            return self._step_exprb2_dense(dt)
+            return self._step_exprb2_dense(dt, frhs_kwargs)
         elif self.method == "exprb2_pfd":
             return self._step_exprb2_pfd(dt, frhs_kwargs)
         elif self.method == "exp_pfd":
@@ -558,7 +558,7 @@ class ExpLejaIntegrator(IntegrateSys):
         elif order == 3:
             yp = self.y_hist[1] # y_{t-1}
             tp = self.t_hist[1]
-            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
             a_tilde_lo, v, n = build_a_tilde(sys_jac_lop, dt, [vb0, dt*fyt, dt*(2./3.)*rn + dt**2*fytt])
         else:
             raise NotImplementedError
@@ -647,18 +647,18 @@ class ExpSplitIntegrator(IntegrateSys):
         self._cached_dt = None
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_lop: LinOp):
+              frhs_yt: jax.Array, sys_lop: LinOp, frhs_kwargs: dict={}):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - L*(yr-yt)
         """
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        frhs_yr = self.sys.frhs(tr, yr, frhs_kwargs=frhs_kwargs)
         L_yd = sys_lop(yr - yt)
         return frhs_yr - frhs_yt - L_yd
 
-    def _step_exp1(self, dt: float) -> StepResult:
+    def _step_exp1(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Exponential Euler,
         computes the solution update by:
@@ -667,7 +667,7 @@ class ExpSplitIntegrator(IntegrateSys):
         t = self.t
         yt = self.y_hist[0]
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         fyt_dt = fyt * dt
         y_new = yt + phi_linop(
                 sys_lop, dt, fyt_dt, 1, self.max_krylov_dim, self.iom)
@@ -675,7 +675,7 @@ class ExpSplitIntegrator(IntegrateSys):
         y_err = -1.
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exp2(self, dt: float) -> StepResult:
+    def _step_exp2(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L_t)F(t, y_t)
@@ -686,7 +686,7 @@ class ExpSplitIntegrator(IntegrateSys):
         yt = self.y_hist[0]
 
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         c2 = 1. #constant between 0 and 1
 
@@ -694,7 +694,7 @@ class ExpSplitIntegrator(IntegrateSys):
         t_2 = t + c2*dt
         y_2 = yt + phi_linop(sys_lop, c2*dt, c2*dt*fyt, 1,
                              self.max_krylov_dim, self.iom)
-        r_2 = self._remf(t_2, y_2, fyt, sys_lop)
+        r_2 = self._remf(t_2, y_2, fyt, sys_lop, frhs_kwargs)
 
         # compute final update
         ## TODO: only valid for c2=1., otherwise reuse Krylov, or use KIOPS
@@ -706,7 +706,7 @@ class ExpSplitIntegrator(IntegrateSys):
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def _step_exp3(self, dt: float) -> StepResult:
+    def _step_exp3(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L_t)F(t, y_t)
@@ -717,7 +717,7 @@ class ExpSplitIntegrator(IntegrateSys):
         yt = self.y_hist[0]
 
         sys_lop = self.sys.fl(t, yt)
-        fyt = self.sys.frhs(t, yt)
+        fyt = self.sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         c2 = 2./3. #constant between 0 and 1
 
@@ -725,14 +725,14 @@ class ExpSplitIntegrator(IntegrateSys):
         t_2 = t + c2*dt
         y_2 = yt + phi_linop(sys_lop, dt*c2, fyt*dt*c2, 1,
                              self.max_krylov_dim, self.iom)
-        r_2 = self._remf(t_2, y_2, fyt, sys_lop)
+        r_2 = self._remf(t_2, y_2, fyt, sys_lop, frhs_kwargs)
 
         # 3rd stage
         ## TODO: only valid for c2=2/3, otherwise reuse Krylov, or use KIOPS
         t_3 = t + (2./3.)*dt
         y_3 = y_2 + phi_linop(sys_lop, dt*(2./3.), r_2 * dt*(4./9./c2), 2,
                               self.max_krylov_dim, self.iom)
-        r_3 = self._remf(t_3, y_3, fyt, sys_lop)
+        r_3 = self._remf(t_3, y_3, fyt, sys_lop, frhs_kwargs)
 
         # compute final update
         y_new = yt \
@@ -764,15 +764,15 @@ class ExpSplitIntegrator(IntegrateSys):
         return self._cached_phiLs
 
     @jax.jit
-    def _step_exp1_jit(t, yt, dt, sys, phiLs):
+    def _step_exp1_jit(t, yt, dt, sys, phiLs, frhs_kwargs={}):
         print("jit-compiling exp1_dense kernel")
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         y_new = yt + dt * phiLs[(1.,1)] @ fyt
         # no error est. avail
         y_err = -1.
         return y_new, y_err
 
-    def _step_exp1_dense(self, dt: float) -> StepResult:
+    def _step_exp1_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Exponential Euler,
         computes the solution update by:
@@ -784,18 +784,18 @@ class ExpSplitIntegrator(IntegrateSys):
         cks = [(1.,[1])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp1_jit(t, yt, dt, self.sys, phiLs)
+        y_new, y_err = ExpSplitIntegrator._step_exp1_jit(t, yt, dt, self.sys, phiLs, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     @partial(jax.jit, static_argnames=('c2', ))
-    def _step_exp2_jit(t, yt, dt, sys, sys_lop, phiLs, c2):
+    def _step_exp2_jit(t, yt, dt, sys, sys_lop, phiLs, c2, frhs_kwargs={}):
         print("jit-compiling exp2_dense kernel")
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
         # 2nd stage
         t_2 = t + c2*dt
         y_2 = yt + c2*dt*phiLs[(c2,1)] @ fyt
-        r_2 = sys.frhs(t_2, y_2) - fyt - sys_lop(y_2 - yt)
+        r_2 = sys.frhs(t_2, y_2, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_2 - yt)
 
         # compute final update
         y_new = yt + dt * (phiLs[(1.,1)] @ fyt + (1/c2) * phiLs[(1.,2)] @ r_2)
@@ -804,7 +804,7 @@ class ExpSplitIntegrator(IntegrateSys):
         y_err = -1.0
         return y_new, y_err
 
-    def _step_exp2_dense(self, dt: float) -> StepResult:
+    def _step_exp2_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L)F(t, y_t)
@@ -819,25 +819,25 @@ class ExpSplitIntegrator(IntegrateSys):
                (1., [1, 2])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp2_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2)
+        y_new, y_err = ExpSplitIntegrator._step_exp2_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     @partial(jax.jit, static_argnames=('c2', 'c3'))
-    def _step_exp3_jit(t, yt, dt, sys, sys_lop, phiLs, c2, c3):
+    def _step_exp3_jit(t, yt, dt, sys, sys_lop, phiLs, c2, c3, frhs_kwargs={}):
         print("jit-compiling exp3_dense kernel")
 
-        fyt = sys.frhs(t, yt)
+        fyt = sys.frhs(t, yt, frhs_kwargs=frhs_kwargs)
 
         # 2nd stage
         t_2 = t + c2*dt
         y_2 = yt + c2*dt * phiLs[(c2,1)] @ fyt
-        r_2 = sys.frhs(t_2, y_2) - fyt - sys_lop(y_2 - yt)
+        r_2 = sys.frhs(t_2, y_2, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_2 - yt)
 
         # 3rd stage
         t_3 = t + c3*dt
         y_3 = yt + c3*dt * (phiLs[(c3,1)] @ fyt + (2./3./c2) * phiLs[(c3,2)] @ r_2)
-        r_3 = sys.frhs(t_3, y_3) - fyt - sys_lop(y_3 - yt)
+        r_3 = sys.frhs(t_3, y_3, frhs_kwargs=frhs_kwargs) - fyt - sys_lop(y_3 - yt)
 
         # compute final update
         y_new = yt + dt * (phiLs[(1.,1)] @ fyt + (3./2.) * phiLs[(1.,2)] @ r_3)
@@ -847,7 +847,7 @@ class ExpSplitIntegrator(IntegrateSys):
 
         return y_new, y_err
 
-    def _step_exp3_dense(self, dt: float) -> StepResult:
+    def _step_exp3_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by:
         y_2 = y_t + c2*dt*\varphi_1(c2*dt*L)F(t, y_t)
@@ -864,23 +864,23 @@ class ExpSplitIntegrator(IntegrateSys):
                (1., [1, 2])]
         phiLs = self._update_dense_phiLs(dt, cks)
 
-        y_new, y_err = ExpSplitIntegrator._step_exp3_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2, c3)
+        y_new, y_err = ExpSplitIntegrator._step_exp3_jit(t, yt, dt, self.sys, self._cached_sys_lop, phiLs, c2, c3, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "exp1":
-            return self._step_exp1(dt)
+            return self._step_exp1(dt, frhs_kwargs)
         elif self.method == "exp2":
-            return self._step_exp2(dt)
+            return self._step_exp2(dt, frhs_kwargs)
         elif self.method == "exp3":
-            return self._step_exp3(dt)
+            return self._step_exp3(dt, frhs_kwargs)
         elif self.method == "exp1_dense":
-            return self._step_exp1_dense(dt)
+            return self._step_exp1_dense(dt, frhs_kwargs)
         elif self.method == "exp2_dense":
-            return self._step_exp2_dense(dt)
+            return self._step_exp2_dense(dt, frhs_kwargs)
         elif self.method == "exp3_dense":
-            return self._step_exp3_dense(dt)
+            return self._step_exp3_dense(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index e78b15a..11afa35 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -31,13 +31,13 @@ class RKIntegrator(IntegrateSys):
         super().__init__(sys, t0, y0, order, method, **kwargs)
 
     @jax.jit
-    def _step_rk4_jit(t, yt, dt, sys):
+    def _step_rk4_jit(t, yt, dt, sys, frhs_kwargs={}):
         print("jit-compiling rk4 kernel")
 
-        f1 = sys.frhs(t,      yt)
-        f2 = sys.frhs(t+dt/2, yt + f1*dt/2);
-        f3 = sys.frhs(t+dt/2, yt + f2*dt/2);
-        f4 = sys.frhs(t+dt,   yt + f3*dt);
+        f1 = sys.frhs(t,      yt, frhs_kwargs=frhs_kwargs)
+        f2 = sys.frhs(t+dt/2, yt + f1*dt/2, frhs_kwargs=frhs_kwargs);
+        f3 = sys.frhs(t+dt/2, yt + f2*dt/2, frhs_kwargs=frhs_kwargs);
+        f4 = sys.frhs(t+dt,   yt + f3*dt, frhs_kwargs=frhs_kwargs);
 
         y_new = yt + dt * (f1 + 2*f2 + 2*f3 + f4) / 6;
 
@@ -46,20 +46,20 @@ class RKIntegrator(IntegrateSys):
 
         return y_new, y_err
 
-    def _step_rk4(self, dt: float) -> StepResult:
+    def _step_rk4(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         """
         Computes the solution update by RK4
         """
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys)
+        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
     def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
-            return self._step_rk4(dt)
+            return self._step_rk4(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index fced3a0..36d72d6 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -565,7 +565,7 @@ class IntegrateSys(metaclass=ABCMeta):
         self.y_hist.appendleft(s.y)
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0):
+              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0, frhs_kwargs: dict={}):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - J_yt*(yr-yt) - v*(tr-t0)
         where v = d(frhs)/dt
@@ -573,7 +573,7 @@ class IntegrateSys(metaclass=ABCMeta):
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        frhs_yr = self.sys.frhs(tr, yr, frhs_kwargs=frhs_kwargs)
         jac_yd = sys_jac_lop_yt(yr - yt)
         return frhs_yr - frhs_yt - jac_yd - v*dt
 
-- 
2.43.0

