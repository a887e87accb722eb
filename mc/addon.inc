// Script member -> host field table of the script classes every game ships: A(class, member, host type, field)
A("C_GILVALUES", "C_GILVALUES.WATER_DEPTH_KNEE", IGuildValues, water_depth_knee)
A("C_GILVALUES", "C_GILVALUES.WATER_DEPTH_CHEST", IGuildValues, water_depth_chest)
A("C_GILVALUES", "C_GILVALUES.JUMPUP_HEIGHT", IGuildValues, jumpup_height)
A("C_GILVALUES", "C_GILVALUES.SWIM_TIME", IGuildValues, swim_time)
A("C_GILVALUES", "C_GILVALUES.DIVE_TIME", IGuildValues, dive_time)
A("C_GILVALUES", "C_GILVALUES.STEP_HEIGHT", IGuildValues, step_height)
A("C_GILVALUES", "C_GILVALUES.JUMPLOW_HEIGHT", IGuildValues, jumplow_height)
A("C_GILVALUES", "C_GILVALUES.JUMPMID_HEIGHT", IGuildValues, jumpmid_height)
A("C_GILVALUES", "C_GILVALUES.SLIDE_ANGLE", IGuildValues, slide_angle)
A("C_GILVALUES", "C_GILVALUES.SLIDE_ANGLE2", IGuildValues, slide_angle2)
A("C_GILVALUES", "C_GILVALUES.DISABLE_AUTOROLL", IGuildValues, disable_autoroll)
A("C_GILVALUES", "C_GILVALUES.SURFACE_ALIGN", IGuildValues, surface_align)
A("C_GILVALUES", "C_GILVALUES.CLIMB_HEADING_ANGLE", IGuildValues, climb_heading_angle)
A("C_GILVALUES", "C_GILVALUES.CLIMB_HORIZ_ANGLE", IGuildValues, climb_horiz_angle)
A("C_GILVALUES", "C_GILVALUES.CLIMB_GROUND_ANGLE", IGuildValues, climb_ground_angle)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_BASE", IGuildValues, fight_range_base)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_FIST", IGuildValues, fight_range_fist)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_1HS", IGuildValues, fight_range_1hs)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_1HA", IGuildValues, fight_range_1ha)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_2HS", IGuildValues, fight_range_2hs)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_2HA", IGuildValues, fight_range_2ha)
A("C_GILVALUES", "C_GILVALUES.FALLDOWN_HEIGHT", IGuildValues, falldown_height)
A("C_GILVALUES", "C_GILVALUES.FALLDOWN_DAMAGE", IGuildValues, falldown_damage)
A("C_GILVALUES", "C_GILVALUES.BLOOD_DISABLED", IGuildValues, blood_disabled)
A("C_GILVALUES", "C_GILVALUES.BLOOD_MAX_DISTANCE", IGuildValues, blood_max_distance)
A("C_GILVALUES", "C_GILVALUES.BLOOD_AMOUNT", IGuildValues, blood_amount)
A("C_GILVALUES", "C_GILVALUES.BLOOD_FLOW", IGuildValues, blood_flow)
A("C_GILVALUES", "C_GILVALUES.BLOOD_EMITTER", IGuildValues, blood_emitter)
A("C_GILVALUES", "C_GILVALUES.BLOOD_TEXTURE", IGuildValues, blood_texture)
A("C_GILVALUES", "C_GILVALUES.TURN_SPEED", IGuildValues, turn_speed)
A("C_GILVALUES", "C_GILVALUES.FIGHT_RANGE_G", IGuildValues, fight_range_g)
A("C_FIGHTAI", "C_FIGHTAI.MOVE", IFightAi, move)
A("C_SFX", "C_SFX.FILE", ISoundEffect, file)
A("C_SFX", "C_SFX.PITCHOFF", ISoundEffect, pitch_off)
A("C_SFX", "C_SFX.PITCHVAR", ISoundEffect, pitch_var)
A("C_SFX", "C_SFX.VOL", ISoundEffect, vol)
A("C_SFX", "C_SFX.LOOP", ISoundEffect, loop)
A("C_SFX", "C_SFX.LOOPSTARTOFFSET", ISoundEffect, loop_start_offset)
A("C_SFX", "C_SFX.LOOPENDOFFSET", ISoundEffect, loop_end_offset)
A("C_SFX", "C_SFX.REVERBLEVEL", ISoundEffect, reverb_level)
A("C_SFX", "C_SFX.PFXNAME", ISoundEffect, pfx_name)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.VOLUME", ISoundSystem, volume)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.BITRESOLUTION", ISoundSystem, bit_resolution)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.SAMPLERATE", ISoundSystem, sample_rate)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.USESTEREO", ISoundSystem, use_stereo)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.NUMSFXCHANNELS", ISoundSystem, num_sfx_channels)
A("C_SNDSYS_CFG", "C_SNDSYS_CFG.USED3DPROVIDERNAME", ISoundSystem, used_3d_provider_name)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.VISNAME_S", IParticleEffectEmitKey, vis_name_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.VISSIZESCALE", IParticleEffectEmitKey, vis_size_scale)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.SCALEDURATION", IParticleEffectEmitKey, scale_duration)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_PPSVALUE", IParticleEffectEmitKey, pfx_pps_value)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_PPSISSMOOTHCHG", IParticleEffectEmitKey, pfx_pps_is_smooth_chg)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_PPSISLOOPINGCHG", IParticleEffectEmitKey, pfx_pps_is_looping_chg)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SCTIME", IParticleEffectEmitKey, pfx_sc_time)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_FLYGRAVITY_S", IParticleEffectEmitKey, pfx_fly_gravity_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPDIM_S", IParticleEffectEmitKey, pfx_shp_dim_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPISVOLUMECHG", IParticleEffectEmitKey, pfx_shp_is_volume_chg)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPSCALEFPS", IParticleEffectEmitKey, pfx_shp_scale_fps)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPDISTRIBWALKSPEED", IParticleEffectEmitKey, pfx_shp_distrib_walks_peed)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPOFFSETVEC_S", IParticleEffectEmitKey, pfx_shp_offset_vec_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_SHPDISTRIBTYPE_S", IParticleEffectEmitKey, pfx_shp_distrib_type_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_DIRMODE_S", IParticleEffectEmitKey, pfx_dir_mode_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_DIRFOR_S", IParticleEffectEmitKey, pfx_dir_for_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_DIRMODETARGETFOR_S", IParticleEffectEmitKey, pfx_dir_mode_target_for_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_DIRMODETARGETPOS_S", IParticleEffectEmitKey, pfx_dir_mode_target_pos_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_VELAVG", IParticleEffectEmitKey, pfx_vel_avg)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_LSPPARTAVG", IParticleEffectEmitKey, pfx_lsp_part_avg)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.PFX_VISALPHASTART", IParticleEffectEmitKey, pfx_vis_alpha_start)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.LIGHTPRESETNAME", IParticleEffectEmitKey, light_preset_name)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.LIGHTRANGE", IParticleEffectEmitKey, light_range)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.SFXID", IParticleEffectEmitKey, sfx_id)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.SFXISAMBIENT", IParticleEffectEmitKey, sfx_is_ambient)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMCREATEFXID", IParticleEffectEmitKey, em_create_fx_id)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMFLYGRAVITY", IParticleEffectEmitKey, em_fly_gravity)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMSELFROTVEL_S", IParticleEffectEmitKey, em_self_rot_vel_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMTRJMODE_S", IParticleEffectEmitKey, em_trj_mode_s)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMTRJEASEVEL", IParticleEffectEmitKey, em_trj_ease_vel)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMCHECKCOLLISION", IParticleEffectEmitKey, em_check_collision)
A("C_PARTICLEFXEMITKEY", "C_PARTICLEFXEMITKEY.EMFXLIFESPAN", IParticleEffectEmitKey, em_fx_lifespan)
A("C_NPC", "C_NPC.ID", INpc, id)
A("C_NPC", "C_NPC.NAME", INpc, name)
A("C_NPC", "C_NPC.SLOT", INpc, slot)
A("C_NPC", "C_NPC.NPCTYPE", INpc, type)
A("C_NPC", "C_NPC.FLAGS", INpc, flags)
A("C_NPC", "C_NPC.ATTRIBUTE", INpc, attribute)
A("C_NPC", "C_NPC.PROTECTION", INpc, protection)
A("C_NPC", "C_NPC.DAMAGE", INpc, damage)
A("C_NPC", "C_NPC.DAMAGETYPE", INpc, damage_type)
A("C_NPC", "C_NPC.GUILD", INpc, guild)
A("C_NPC", "C_NPC.LEVEL", INpc, level)
A("C_NPC", "C_NPC.MISSION", INpc, mission)
A("C_NPC", "C_NPC.FIGHT_TACTIC", INpc, fight_tactic)
A("C_NPC", "C_NPC.WEAPON", INpc, weapon)
A("C_NPC", "C_NPC.VOICE", INpc, voice)
A("C_NPC", "C_NPC.VOICEPITCH", INpc, voice_pitch)
A("C_NPC", "C_NPC.BODYMASS", INpc, body_mass)
A("C_NPC", "C_NPC.DAILY_ROUTINE", INpc, daily_routine)
A("C_NPC", "C_NPC.START_AISTATE", INpc, start_aistate)
A("C_NPC", "C_NPC.SPAWNPOINT", INpc, spawnpoint)
A("C_NPC", "C_NPC.SPAWNDELAY", INpc, spawn_delay)
A("C_NPC", "C_NPC.SENSES", INpc, senses)
A("C_NPC", "C_NPC.SENSES_RANGE", INpc, senses_range)
A("C_NPC", "C_NPC.AIVAR", INpc, aivar)
A("C_NPC", "C_NPC.WP", INpc, wp)
A("C_NPC", "C_NPC.EXP", INpc, exp)
A("C_NPC", "C_NPC.EXP_NEXT", INpc, exp_next)
A("C_NPC", "C_NPC.LP", INpc, lp)
A("C_NPC", "C_NPC.HITCHANCE", INpc, hitchance)
A("C_NPC", "C_NPC.BODYSTATEINTERRUPTABLEOVERRIDE", INpc, bodystate_interruptable_override)
A("C_NPC", "C_NPC.NOFOCUS", INpc, no_focus)
A("C_NPC", "C_NPC.EFFECT", INpc, effect)
A("C_MISSION", "C_MISSION.NAME", IMission, name)
A("C_MISSION", "C_MISSION.DESCRIPTION", IMission, description)
A("C_MISSION", "C_MISSION.DURATION", IMission, duration)
A("C_MISSION", "C_MISSION.IMPORTANT", IMission, important)
A("C_MISSION", "C_MISSION.OFFERCONDITIONS", IMission, offer_conditions)
A("C_MISSION", "C_MISSION.OFFER", IMission, offer)
A("C_MISSION", "C_MISSION.SUCCESSCONDITIONS", IMission, success_conditions)
A("C_MISSION", "C_MISSION.SUCCESS", IMission, success)
A("C_MISSION", "C_MISSION.FAILURECONDITIONS", IMission, failure_conditions)
A("C_MISSION", "C_MISSION.FAILURE", IMission, failure)
A("C_MISSION", "C_MISSION.OBSOLETECONDITIONS", IMission, obsolete_conditions)
A("C_MISSION", "C_MISSION.OBSOLETE", IMission, obsolete)
A("C_MISSION", "C_MISSION.RUNNING", IMission, running)
A("C_ITEM", "C_ITEM.ID", IItem, id)
A("C_ITEM", "C_ITEM.NAME", IItem, name)
A("C_ITEM", "C_ITEM.NAMEID", IItem, name_id)
A("C_ITEM", "C_ITEM.HP", IItem, hp)
A("C_ITEM", "C_ITEM.HP_MAX", IItem, hp_max)
A("C_ITEM", "C_ITEM.MAINFLAG", IItem, main_flag)
A("C_ITEM", "C_ITEM.FLAGS", IItem, flags)
A("C_ITEM", "C_ITEM.WEIGHT", IItem, weight)
A("C_ITEM", "C_ITEM.VALUE", IItem, value)
A("C_ITEM", "C_ITEM.DAMAGETYPE", IItem, damage_type)
A("C_ITEM", "C_ITEM.DAMAGETOTAL", IItem, damage_total)
A("C_ITEM", "C_ITEM.DAMAGE", IItem, damage)
A("C_ITEM", "C_ITEM.WEAR", IItem, wear)
A("C_ITEM", "C_ITEM.PROTECTION", IItem, protection)
A("C_ITEM", "C_ITEM.NUTRITION", IItem, nutrition)
A("C_ITEM", "C_ITEM.COND_ATR", IItem, cond_atr)
A("C_ITEM", "C_ITEM.COND_VALUE", IItem, cond_value)
A("C_ITEM", "C_ITEM.CHANGE_ATR", IItem, change_atr)
A("C_ITEM", "C_ITEM.CHANGE_VALUE", IItem, change_value)
A("C_ITEM", "C_ITEM.MAGIC", IItem, magic)
A("C_ITEM", "C_ITEM.ON_EQUIP", IItem, on_equip)
A("C_ITEM", "C_ITEM.ON_UNEQUIP", IItem, on_unequip)
A("C_ITEM", "C_ITEM.ON_STATE", IItem, on_state)
A("C_ITEM", "C_ITEM.OWNER", IItem, owner)
A("C_ITEM", "C_ITEM.OWNERGUILD", IItem, owner_guild)
A("C_ITEM", "C_ITEM.DISGUISEGUILD", IItem, disguise_guild)
A("C_ITEM", "C_ITEM.VISUAL", IItem, visual)
A("C_ITEM", "C_ITEM.VISUAL_CHANGE", IItem, visual_change)
A("C_ITEM", "C_ITEM.VISUAL_SKIN", IItem, visual_skin)
A("C_ITEM", "C_ITEM.SCEMENAME", IItem, scheme_name)
A("C_ITEM", "C_ITEM.MATERIAL", IItem, material)
A("C_ITEM", "C_ITEM.MUNITION", IItem, munition)
A("C_ITEM", "C_ITEM.SPELL", IItem, spell)
A("C_ITEM", "C_ITEM.RANGE", IItem, range)
A("C_ITEM", "C_ITEM.MAG_CIRCLE", IItem, mag_circle)
A("C_ITEM", "C_ITEM.DESCRIPTION", IItem, description)
A("C_ITEM", "C_ITEM.TEXT", IItem, text)
A("C_ITEM", "C_ITEM.COUNT", IItem, count)
A("C_ITEM", "C_ITEM.INV_ZBIAS", IItem, inv_zbias)
A("C_ITEM", "C_ITEM.INV_ROTX", IItem, inv_rot_x)
A("C_ITEM", "C_ITEM.INV_ROTY", IItem, inv_rot_y)
A("C_ITEM", "C_ITEM.INV_ROTZ", IItem, inv_rot_z)
A("C_ITEM", "C_ITEM.INV_ANIMATE", IItem, inv_animate)
A("C_ITEM", "C_ITEM.EFFECT", IItem, effect)
A("C_FOCUS", "C_FOCUS.NPC_LONGRANGE", IFocus, npc_longrange)
A("C_FOCUS", "C_FOCUS.NPC_RANGE1", IFocus, npc_range1)
A("C_FOCUS", "C_FOCUS.NPC_RANGE2", IFocus, npc_range2)
A("C_FOCUS", "C_FOCUS.NPC_AZI", IFocus, npc_azi)
A("C_FOCUS", "C_FOCUS.NPC_ELEVDO", IFocus, npc_elevdo)
A("C_FOCUS", "C_FOCUS.NPC_ELEVUP", IFocus, npc_elevup)
A("C_FOCUS", "C_FOCUS.NPC_PRIO", IFocus, npc_prio)
A("C_FOCUS", "C_FOCUS.ITEM_RANGE1", IFocus, item_range1)
A("C_FOCUS", "C_FOCUS.ITEM_RANGE2", IFocus, item_range2)
A("C_FOCUS", "C_FOCUS.ITEM_AZI", IFocus, item_azi)
A("C_FOCUS", "C_FOCUS.ITEM_ELEVDO", IFocus, item_elevdo)
A("C_FOCUS", "C_FOCUS.ITEM_ELEVUP", IFocus, item_elevup)
A("C_FOCUS", "C_FOCUS.ITEM_PRIO", IFocus, item_prio)
A("C_FOCUS", "C_FOCUS.MOB_RANGE1", IFocus, mob_range1)
A("C_FOCUS", "C_FOCUS.MOB_RANGE2", IFocus, mob_range2)
A("C_FOCUS", "C_FOCUS.MOB_AZI", IFocus, mob_azi)
A("C_FOCUS", "C_FOCUS.MOB_ELEVDO", IFocus, mob_elevdo)
A("C_FOCUS", "C_FOCUS.MOB_ELEVUP", IFocus, mob_elevup)
A("C_FOCUS", "C_FOCUS.MOB_PRIO", IFocus, mob_prio)
A("C_INFO", "C_INFO.NPC", IInfo, npc)
A("C_INFO", "C_INFO.NR", IInfo, nr)
A("C_INFO", "C_INFO.IMPORTANT", IInfo, important)
A("C_INFO", "C_INFO.CONDITION", IInfo, condition)
A("C_INFO", "C_INFO.INFORMATION", IInfo, information)
A("C_INFO", "C_INFO.DESCRIPTION", IInfo, description)
A("C_INFO", "C_INFO.TRADE", IInfo, trade)
A("C_INFO", "C_INFO.PERMANENT", IInfo, permanent)
A("C_ITEMREACT", "C_ITEMREACT.NPC", IItemReact, npc)
A("C_ITEMREACT", "C_ITEMREACT.TRADE_ITEM", IItemReact, trade_item)
A("C_ITEMREACT", "C_ITEMREACT.TRADE_AMOUNT", IItemReact, trade_amount)
A("C_ITEMREACT", "C_ITEMREACT.REQUESTED_CAT", IItemReact, requested_cat)
A("C_ITEMREACT", "C_ITEMREACT.REQUESTED_ITEM", IItemReact, requested_item)
A("C_ITEMREACT", "C_ITEMREACT.REQUESTED_AMOUNT", IItemReact, requested_amount)
A("C_ITEMREACT", "C_ITEMREACT.REACTION", IItemReact, reaction)
A("C_SPELL", "C_SPELL.TIME_PER_MANA", ISpell, time_per_mana)
A("C_SPELL", "C_SPELL.DAMAGE_PER_LEVEL", ISpell, damage_per_level)
A("C_SPELL", "C_SPELL.DAMAGETYPE", ISpell, damage_type)
A("C_SPELL", "C_SPELL.SPELLTYPE", ISpell, spell_type)
A("C_SPELL", "C_SPELL.CANTURNDURINGINVEST", ISpell, can_turn_during_invest)
A("C_SPELL", "C_SPELL.CANCHANGETARGETDURINGINVEST", ISpell, can_change_target_during_invest)
A("C_SPELL", "C_SPELL.ISMULTIEFFECT", ISpell, is_multi_effect)
A("C_SPELL", "C_SPELL.TARGETCOLLECTALGO", ISpell, target_collect_algo)
A("C_SPELL", "C_SPELL.TARGETCOLLECTTYPE", ISpell, target_collect_type)
A("C_SPELL", "C_SPELL.TARGETCOLLECTRANGE", ISpell, target_collect_range)
A("C_SPELL", "C_SPELL.TARGETCOLLECTAZI", ISpell, target_collect_azi)
A("C_SPELL", "C_SPELL.TARGETCOLLECTELEV", ISpell, target_collect_elev)
A("C_SVM", "C_SVM.MILGREETINGS", ISvm, mil_greetings)
A("C_SVM", "C_SVM.PALGREETINGS", ISvm, pal_greetings)
A("C_SVM", "C_SVM.WEATHER", ISvm, weather)
A("C_SVM", "C_SVM.IGETYOUSTILL", ISvm, iget_you_still)
A("C_SVM", "C_SVM.DIEENEMY", ISvm, die_enemy)
A("C_SVM", "C_SVM.DIEMONSTER", ISvm, die_monster)
A("C_SVM", "C_SVM.ADDON_DIEMONSTER", ISvm, addon_die_monster)
A("C_SVM", "C_SVM.ADDON_DIEMONSTER2", ISvm, addon_die_monster_2)
A("C_SVM", "C_SVM.DIRTYTHIEF", ISvm, dirty_thief)
A("C_SVM", "C_SVM.HANDSOFF", ISvm, hands_off)
A("C_SVM", "C_SVM.SHEEPKILLER", ISvm, sheep_killer)
A("C_SVM", "C_SVM.SHEEPKILLERMONSTER", ISvm, sheep_killer_monster)
A("C_SVM", "C_SVM.YOUMURDERER", ISvm, you_murderer)
A("C_SVM", "C_SVM.DIESTUPIDBEAST", ISvm, die_stupid_beast)
A("C_SVM", "C_SVM.YOUDAREHITME", ISvm, you_dare_hit_me)
A("C_SVM", "C_SVM.YOUASKEDFORIT", ISvm, you_asked_for_it)
A("C_SVM", "C_SVM.THENIBEATYOUOUTOFHERE", ISvm, then_ibeat_you_out_of_here)
A("C_SVM", "C_SVM.WHATDIDYOUDOINTHERE", ISvm, what_did_you_do_in_there)
A("C_SVM", "C_SVM.WILLYOUSTOPFIGHTING", ISvm, will_you_stop_fighting)
A("C_SVM", "C_SVM.KILLENEMY", ISvm, kill_enemy)
A("C_SVM", "C_SVM.ENEMYKILLED", ISvm, enemy_killed)
A("C_SVM", "C_SVM.MONSTERKILLED", ISvm, monster_killed)
A("C_SVM", "C_SVM.ADDON_MONSTERKILLED", ISvm, addon_monster_killed)
A("C_SVM", "C_SVM.ADDON_MONSTERKILLED2", ISvm, addon_monster_killed_2)
A("C_SVM", "C_SVM.THIEFDOWN", ISvm, thief_down)
A("C_SVM", "C_SVM.RUMFUMMLERDOWN", ISvm, rumfummler_down)
A("C_SVM", "C_SVM.SHEEPATTACKERDOWN", ISvm, sheep_attacker_down)
A("C_SVM", "C_SVM.KILLMURDERER", ISvm, kill_murderer)
A("C_SVM", "C_SVM.STUPIDBEASTKILLED", ISvm, stupid_beast_killed)
A("C_SVM", "C_SVM.NEVERHITMEAGAIN", ISvm, never_hit_me_again)
A("C_SVM", "C_SVM.YOUBETTERSHOULDHAVELISTENED", ISvm, you_better_should_have_listened)
A("C_SVM", "C_SVM.GETUPANDBEGONE", ISvm, get_up_and_begone)
A("C_SVM", "C_SVM.NEVERENTERROOMAGAIN", ISvm, never_enter_room_again)
A("C_SVM", "C_SVM.THEREISNOFIGHTINGHERE", ISvm, there_is_no_fighting_here)
A("C_SVM", "C_SVM.SPAREME", ISvm, spare_me)
A("C_SVM", "C_SVM.RUNAWAY", ISvm, run_away)
A("C_SVM", "C_SVM.ALARM", ISvm, alarm)
A("C_SVM", "C_SVM.GUARDS", ISvm, guards)
A("C_SVM", "C_SVM.HELP", ISvm, help)
A("C_SVM", "C_SVM.GOODMONSTERKILL", ISvm, good_monster_kill)
A("C_SVM", "C_SVM.GOODKILL", ISvm, good_kill)
A("C_SVM", "C_SVM.NOTNOW", ISvm, not_now)
A("C_SVM", "C_SVM.RUNCOWARD", ISvm, run_coward)
A("C_SVM", "C_SVM.GETOUTOFHERE", ISvm, get_out_of_here)
A("C_SVM", "C_SVM.WHYAREYOUINHERE", ISvm, why_are_you_in_here)
A("C_SVM", "C_SVM.YESGOOUTOFHERE", ISvm, yes_go_out_of_here)
A("C_SVM", "C_SVM.WHATSTHISSUPPOSEDTOBE", ISvm, whats_this_supposed_to_be)
A("C_SVM", "C_SVM.YOUDISTURBEDMYSLUMBER", ISvm, you_disturbed_my_slumber)
A("C_SVM", "C_SVM.ITOOKYOURGOLD", ISvm, itook_your_gold)
A("C_SVM", "C_SVM.SHITNOGOLD", ISvm, shit_no_gold)
A("C_SVM", "C_SVM.ITAKEYOURWEAPON", ISvm, itake_your_weapon)
A("C_SVM", "C_SVM.WHATAREYOUDOING", ISvm, what_are_you_doing)
A("C_SVM", "C_SVM.LOOKINGFORTROUBLEAGAIN", ISvm, looking_for_trouble_again)
A("C_SVM", "C_SVM.STOPMAGIC", ISvm, stop_magic)
A("C_SVM", "C_SVM.ISAIDSTOPMAGIC", ISvm, isaid_stop_magic)
A("C_SVM", "C_SVM.WEAPONDOWN", ISvm, weapon_down)
A("C_SVM", "C_SVM.ISAIDWEAPONDOWN", ISvm, isaid_weapon_down)
A("C_SVM", "C_SVM.WISEMOVE", ISvm, wise_move)
A("C_SVM", "C_SVM.NEXTTIMEYOUREINFORIT", ISvm, next_time_youre_in_for_it)
A("C_SVM", "C_SVM.OHMYHEAD", ISvm, oh_my_head)
A("C_SVM", "C_SVM.THERESAFIGHT", ISvm, theres_afight)
A("C_SVM", "C_SVM.OHMYGODITSAFIGHT", ISvm, oh_my_god_its_afight)
A("C_SVM", "C_SVM.GOODVICTORY", ISvm, good_victory)
A("C_SVM", "C_SVM.NOTBAD", ISvm, not_bad)
A("C_SVM", "C_SVM.OHMYGODHESDOWN", ISvm, oh_my_god_hes_down)
A("C_SVM", "C_SVM.CHEERFRIEND01", ISvm, cheer_friend_01)
A("C_SVM", "C_SVM.CHEERFRIEND02", ISvm, cheer_friend_02)
A("C_SVM", "C_SVM.CHEERFRIEND03", ISvm, cheer_friend_03)
A("C_SVM", "C_SVM.OOH01", ISvm, ooh_01)
A("C_SVM", "C_SVM.OOH02", ISvm, ooh_02)
A("C_SVM", "C_SVM.OOH03", ISvm, ooh_03)
A("C_SVM", "C_SVM.WHATWASTHAT", ISvm, what_was_that)
A("C_SVM", "C_SVM.GETOUTOFMYBED", ISvm, get_out_of_my_bed)
A("C_SVM", "C_SVM.AWAKE", ISvm, awake)
A("C_SVM", "C_SVM.ABS_COMMANDER", ISvm, abs_commander)
A("C_SVM", "C_SVM.ABS_MONASTERY", ISvm, abs_monastery)
A("C_SVM", "C_SVM.ABS_FARM", ISvm, abs_farm)
A("C_SVM", "C_SVM.ABS_GOOD", ISvm, abs_good)
A("C_SVM", "C_SVM.SHEEPKILLER_CRIME", ISvm, sheep_killer_crime)
A("C_SVM", "C_SVM.ATTACK_CRIME", ISvm, attack_crime)
A("C_SVM", "C_SVM.THEFT_CRIME", ISvm, theft_crime)
A("C_SVM", "C_SVM.MURDER_CRIME", ISvm, murder_crime)
A("C_SVM", "C_SVM.PAL_CITY_CRIME", ISvm, pal_city_crime)
A("C_SVM", "C_SVM.MIL_CITY_CRIME", ISvm, mil_city_crime)
A("C_SVM", "C_SVM.CITY_CRIME", ISvm, city_crime)
A("C_SVM", "C_SVM.MONA_CRIME", ISvm, mona_crime)
A("C_SVM", "C_SVM.FARM_CRIME", ISvm, farm_crime)
A("C_SVM", "C_SVM.OC_CRIME", ISvm, oc_crime)
A("C_SVM", "C_SVM.TOUGHGUY_ATTACKLOST", ISvm, toughguy_attack_lost)
A("C_SVM", "C_SVM.TOUGHGUY_ATTACKWON", ISvm, toughguy_attack_won)
A("C_SVM", "C_SVM.TOUGHGUY_PLAYERATTACK", ISvm, toughguy_player_attack)
A("C_SVM", "C_SVM.GOLD_1000", ISvm, gold_1000)
A("C_SVM", "C_SVM.GOLD_950", ISvm, gold_950)
A("C_SVM", "C_SVM.GOLD_900", ISvm, gold_900)
A("C_SVM", "C_SVM.GOLD_850", ISvm, gold_850)
A("C_SVM", "C_SVM.GOLD_800", ISvm, gold_800)
A("C_SVM", "C_SVM.GOLD_750", ISvm, gold_750)
A("C_SVM", "C_SVM.GOLD_700", ISvm, gold_700)
A("C_SVM", "C_SVM.GOLD_650", ISvm, gold_650)
A("C_SVM", "C_SVM.GOLD_600", ISvm, gold_600)
A("C_SVM", "C_SVM.GOLD_550", ISvm, gold_550)
A("C_SVM", "C_SVM.GOLD_500", ISvm, gold_500)
A("C_SVM", "C_SVM.GOLD_450", ISvm, gold_450)
A("C_SVM", "C_SVM.GOLD_400", ISvm, gold_400)
A("C_SVM", "C_SVM.GOLD_350", ISvm, gold_350)
A("C_SVM", "C_SVM.GOLD_300", ISvm, gold_300)
A("C_SVM", "C_SVM.GOLD_250", ISvm, gold_250)
A("C_SVM", "C_SVM.GOLD_200", ISvm, gold_200)
A("C_SVM", "C_SVM.GOLD_150", ISvm, gold_150)
A("C_SVM", "C_SVM.GOLD_100", ISvm, gold_100)
A("C_SVM", "C_SVM.GOLD_90", ISvm, gold_90)
A("C_SVM", "C_SVM.GOLD_80", ISvm, gold_80)
A("C_SVM", "C_SVM.GOLD_70", ISvm, gold_70)
A("C_SVM", "C_SVM.GOLD_60", ISvm, gold_60)
A("C_SVM", "C_SVM.GOLD_50", ISvm, gold_50)
A("C_SVM", "C_SVM.GOLD_40", ISvm, gold_40)
A("C_SVM", "C_SVM.GOLD_30", ISvm, gold_30)
A("C_SVM", "C_SVM.GOLD_20", ISvm, gold_20)
A("C_SVM", "C_SVM.GOLD_10", ISvm, gold_10)
A("C_SVM", "C_SVM.SMALLTALK01", ISvm, smalltalk_01)
A("C_SVM", "C_SVM.SMALLTALK02", ISvm, smalltalk_02)
A("C_SVM", "C_SVM.SMALLTALK03", ISvm, smalltalk_03)
A("C_SVM", "C_SVM.SMALLTALK04", ISvm, smalltalk_04)
A("C_SVM", "C_SVM.SMALLTALK05", ISvm, smalltalk_05)
A("C_SVM", "C_SVM.SMALLTALK06", ISvm, smalltalk_06)
A("C_SVM", "C_SVM.SMALLTALK07", ISvm, smalltalk_07)
A("C_SVM", "C_SVM.SMALLTALK08", ISvm, smalltalk_08)
A("C_SVM", "C_SVM.SMALLTALK09", ISvm, smalltalk_09)
A("C_SVM", "C_SVM.SMALLTALK10", ISvm, smalltalk_10)
A("C_SVM", "C_SVM.SMALLTALK11", ISvm, smalltalk_11)
A("C_SVM", "C_SVM.SMALLTALK12", ISvm, smalltalk_12)
A("C_SVM", "C_SVM.SMALLTALK13", ISvm, smalltalk_13)
A("C_SVM", "C_SVM.SMALLTALK14", ISvm, smalltalk_14)
A("C_SVM", "C_SVM.SMALLTALK15", ISvm, smalltalk_15)
A("C_SVM", "C_SVM.SMALLTALK16", ISvm, smalltalk_16)
A("C_SVM", "C_SVM.SMALLTALK17", ISvm, smalltalk_17)
A("C_SVM", "C_SVM.SMALLTALK18", ISvm, smalltalk_18)
A("C_SVM", "C_SVM.SMALLTALK19", ISvm, smalltalk_19)
A("C_SVM", "C_SVM.SMALLTALK20", ISvm, smalltalk_20)
A("C_SVM", "C_SVM.SMALLTALK21", ISvm, smalltalk_21)
A("C_SVM", "C_SVM.SMALLTALK22", ISvm, smalltalk_22)
A("C_SVM", "C_SVM.SMALLTALK23", ISvm, smalltalk_23)
A("C_SVM", "C_SVM.SMALLTALK24", ISvm, smalltalk_24)
A("C_SVM", "C_SVM.SMALLTALK25", ISvm, smalltalk_25)
A("C_SVM", "C_SVM.SMALLTALK26", ISvm, smalltalk_26)
A("C_SVM", "C_SVM.SMALLTALK27", ISvm, smalltalk_27)
A("C_SVM", "C_SVM.SMALLTALK28", ISvm, smalltalk_28)
A("C_SVM", "C_SVM.SMALLTALK29", ISvm, smalltalk_29)
A("C_SVM", "C_SVM.SMALLTALK30", ISvm, smalltalk_30)
A("C_SVM", "C_SVM.NOLEARNNOPOINTS", ISvm, no_learn_no_points)
A("C_SVM", "C_SVM.NOLEARNOVERPERSONALMAX", ISvm, no_learn_over_personal_max)
A("C_SVM", "C_SVM.NOLEARNYOUREBETTER", ISvm, no_learn_youre_better)
A("C_SVM", "C_SVM.YOULEARNEDSOMETHING", ISvm, you_learned_something)
A("C_SVM", "C_SVM.UNTERSTADT", ISvm, unterstadt)
A("C_SVM", "C_SVM.OBERSTADT", ISvm, oberstadt)
A("C_SVM", "C_SVM.TEMPEL", ISvm, tempel)
A("C_SVM", "C_SVM.MARKT", ISvm, markt)
A("C_SVM", "C_SVM.GALGEN", ISvm, galgen)
A("C_SVM", "C_SVM.KASERNE", ISvm, kaserne)
A("C_SVM", "C_SVM.HAFEN", ISvm, hafen)
A("C_SVM", "C_SVM.WHERETO", ISvm, whereto)
A("C_SVM", "C_SVM.OBERSTADT_2_UNTERSTADT", ISvm, oberstadt_2_unterstadt)
A("C_SVM", "C_SVM.UNTERSTADT_2_OBERSTADT", ISvm, unterstadt_2_oberstadt)
A("C_SVM", "C_SVM.UNTERSTADT_2_TEMPEL", ISvm, unterstadt_2_tempel)
A("C_SVM", "C_SVM.UNTERSTADT_2_HAFEN", ISvm, unterstadt_2_hafen)
A("C_SVM", "C_SVM.TEMPEL_2_UNTERSTADT", ISvm, tempel_2_unterstadt)
A("C_SVM", "C_SVM.TEMPEL_2_MARKT", ISvm, tempel_2_markt)
A("C_SVM", "C_SVM.TEMPEL_2_GALGEN", ISvm, tempel_2_galgen)
A("C_SVM", "C_SVM.MARKT_2_TEMPEL", ISvm, markt_2_tempel)
A("C_SVM", "C_SVM.MARKT_2_KASERNE", ISvm, markt_2_kaserne)
A("C_SVM", "C_SVM.MARKT_2_GALGEN", ISvm, markt_2_galgen)
A("C_SVM", "C_SVM.GALGEN_2_TEMPEL", ISvm, galgen_2_tempel)
A("C_SVM", "C_SVM.GALGEN_2_MARKT", ISvm, galgen_2_markt)
A("C_SVM", "C_SVM.GALGEN_2_KASERNE", ISvm, galgen_2_kaserne)
A("C_SVM", "C_SVM.KASERNE_2_MARKT", ISvm, kaserne_2_markt)
A("C_SVM", "C_SVM.KASERNE_2_GALGEN", ISvm, kaserne_2_galgen)
A("C_SVM", "C_SVM.HAFEN_2_UNTERSTADT", ISvm, hafen_2_unterstadt)
A("C_SVM", "C_SVM.DEAD", ISvm, dead)
A("C_SVM", "C_SVM.AARGH_1", ISvm, aargh_1)
A("C_SVM", "C_SVM.AARGH_2", ISvm, aargh_2)
A("C_SVM", "C_SVM.AARGH_3", ISvm, aargh_3)
A("C_SVM", "C_SVM.ADDON_WRONGARMOR", ISvm, addon_wrong_armor)
A("C_SVM", "C_SVM.ADDON_WRONGARMOR_SLD", ISvm, addon_wrong_armor_sld)
A("C_SVM", "C_SVM.ADDON_WRONGARMOR_MIL", ISvm, addon_wrong_armor_mil)
A("C_SVM", "C_SVM.ADDON_WRONGARMOR_KDF", ISvm, addon_wrong_armor_kdf)
A("C_SVM", "C_SVM.ADDON_NOARMOR_BDT", ISvm, addon_no_armor_bdt)
A("C_SVM", "C_SVM.ADDON_DIEBANDIT", ISvm, addon_die_bandit)
A("C_SVM", "C_SVM.ADDON_DIRTYPIRATE", ISvm, addon_dirty_pirate)
A("C_SVM", "C_SVM.SC_HEYTURNAROUND", ISvm, sc_hey_turn_around)
A("C_SVM", "C_SVM.SC_HEYTURNAROUND02", ISvm, sc_hey_turn_around_02)
A("C_SVM", "C_SVM.SC_HEYTURNAROUND03", ISvm, sc_hey_turn_around_03)
A("C_SVM", "C_SVM.SC_HEYTURNAROUND04", ISvm, sc_hey_turn_around_04)
A("C_SVM", "C_SVM.SC_HEYWAITASECOND", ISvm, sc_hey_wait_asecond)
A("C_SVM", "C_SVM.DOESNTWORK", ISvm, doesnt_mork)
A("C_SVM", "C_SVM.PICKBROKE", ISvm, pick_broke)
A("C_SVM", "C_SVM.NEEDKEY", ISvm, need_key)
A("C_SVM", "C_SVM.NOMOREPICKS", ISvm, no_more_picks)
A("C_SVM", "C_SVM.NOPICKLOCKTALENT", ISvm, no_pick_lock_talent)
A("C_SVM", "C_SVM.NOSWEEPING", ISvm, no_sweeping)
A("C_SVM", "C_SVM.PICKLOCKORKEYMISSING", ISvm, pick_lock_or_key_missing)
A("C_SVM", "C_SVM.KEYMISSING", ISvm, key_missing)
A("C_SVM", "C_SVM.PICKLOCKMISSING", ISvm, pick_lock_missing)
A("C_SVM", "C_SVM.NEVEROPEN", ISvm, never_open)
A("C_SVM", "C_SVM.MISSINGITEM", ISvm, missing_item)
A("C_SVM", "C_SVM.DONTKNOW", ISvm, dont_know)
A("C_SVM", "C_SVM.NOTHINGTOGET", ISvm, nothing_to_get)
A("C_SVM", "C_SVM.NOTHINGTOGET02", ISvm, nothing_to_get_02)
A("C_SVM", "C_SVM.NOTHINGTOGET03", ISvm, nothing_to_get_03)
A("C_SVM", "C_SVM.HEALSHRINE", ISvm, heal_shrine)
A("C_SVM", "C_SVM.HEALLASTSHRINE", ISvm, heal_last_shrine)
A("C_SVM", "C_SVM.IRDORATHTHEREYOUARE", ISvm, irdorath_there_you_are)
A("C_SVM", "C_SVM.SCOPENSIRDORATHBOOK", ISvm, sc_opens_irdorath_book)
A("C_SVM", "C_SVM.SCOPENSLASTDOOR", ISvm, sc_opens_last_door)
A("C_SVM", "C_SVM.TRADE_1", ISvm, trade_1)
A("C_SVM", "C_SVM.TRADE_2", ISvm, trade_2)
A("C_SVM", "C_SVM.TRADE_3", ISvm, trade_3)
A("C_SVM", "C_SVM.VERSTEHE", ISvm, verstehe)
A("C_SVM", "C_SVM.FOUNDTREASURE", ISvm, found_treasure)
A("C_SVM", "C_SVM.CANTUNDERSTANDTHIS", ISvm, cant_understand_this)
A("C_SVM", "C_SVM.CANTREADTHIS", ISvm, cant_read_this)
A("C_SVM", "C_SVM.STONEPLATE_1", ISvm, stoneplate_1)
A("C_SVM", "C_SVM.STONEPLATE_2", ISvm, stoneplate_2)
A("C_SVM", "C_SVM.STONEPLATE_3", ISvm, stoneplate_3)
A("C_SVM", "C_SVM.COUGH", ISvm, cough)
A("C_SVM", "C_SVM.HUI", ISvm, hui)
A("C_SVM", "C_SVM.ADDON_THISLITTLEBASTARD", ISvm, addon_this_little_bastard)
A("C_SVM", "C_SVM.ADDON_OPENADANOSTEMPLE", ISvm, addon_open_adanos_temple)
A("C_SVM", "C_SVM.ATTENTAT_ADDON_DESCRIPTION", ISvm, attentat_addon_description)
A("C_SVM", "C_SVM.ATTENTAT_ADDON_DESCRIPTION2", ISvm, attentat_addon_description_2)
A("C_SVM", "C_SVM.ATTENTAT_ADDON_PRO", ISvm, attentat_addon_pro)
A("C_SVM", "C_SVM.ATTENTAT_ADDON_CONTRA", ISvm, attentat_addon_contra)
A("C_SVM", "C_SVM.MINE_ADDON_DESCRIPTION", ISvm, mine_addon_description)
A("C_SVM", "C_SVM.ADDON_SUMMONANCIENTGHOST", ISvm, addon_summon_ancient_ghost)
A("C_SVM", "C_SVM.ADDON_ANCIENTGHOST_NOTNEAR", ISvm, addon_ancient_ghost_not_near)
A("C_SVM", "C_SVM.ADDON_GOLD_DESCRIPTION", ISvm, addon_gold_description)
A("C_SVM", "C_SVM.WATCHYOURAIM", ISvm, watch_your_aim)
A("C_SVM", "C_SVM.WATCHYOURAIMANGRY", ISvm, watch_your_aim_angry)
A("C_SVM", "C_SVM.LETSFORGETOURLITTLEFIGHT", ISvm, lets_forget_our_little_fight)
A("C_SVM", "C_SVM.STRANGE", ISvm, strange)
A("C_SVM", "C_SVM.DIEMORTALENEMY", ISvm, die_mortal_enemy)
A("C_SVM", "C_SVM.NOWWAIT", ISvm, now_wait)
A("C_SVM", "C_SVM.NOWWAITINTRUDER", ISvm, now_wait_intruder)
A("C_SVM", "C_SVM.YOUSTILLNOTHAVEENOUGH", ISvm, you_still_not_have_enough)
A("C_SVM", "C_SVM.YOUATTACKEDMYCHARGE", ISvm, you_attacked_my_charge)
A("C_SVM", "C_SVM.IWILLTEACHYOURESPECTFORFOREIGNPROPERTY", ISvm, iwill_teach_you_respect_for_foreign_property)
A("C_SVM", "C_SVM.YOUKILLEDONEOFUS", ISvm, you_killed_one_of_us)
A("C_SVM", "C_SVM.BERZERK", ISvm, berzerk)
A("C_SVM", "C_SVM.YOULLBESORRYFORTHIS", ISvm, youll_be_sorry_for_this)
A("C_SVM", "C_SVM.YESYES", ISvm, yes_yes)
A("C_SVM", "C_SVM.SHITWHATAMONSTER", ISvm, shit_what_amonster)
A("C_SVM", "C_SVM.WEWILLMEETAGAIN", ISvm, we_will_meet_again)
A("C_SVM", "C_SVM.NEVERTRYTHATAGAIN", ISvm, never_try_that_again)
A("C_SVM", "C_SVM.ITOOKYOURORE", ISvm, itook_your_ore)
A("C_SVM", "C_SVM.SHITNOORE", ISvm, shit_no_ore)
A("C_SVM", "C_SVM.YOUVIOLATEDFORBIDDENTERRITORY", ISvm, you_violated_forbidden_territory)
A("C_SVM", "C_SVM.YOUWANNAFOOLME", ISvm, you_wanna_fool_me)
A("C_SVM", "C_SVM.WHATDIDYOUINTHERE", ISvm, what_did_you_in_there)
A("C_SVM", "C_SVM.INTRUDERALERT", ISvm, intruder_alert)
A("C_SVM", "C_SVM.BEHINDYOU", ISvm, behind_you)
A("C_SVM", "C_SVM.HEYHEYHEY", ISvm, hey_hey_hey)
A("C_SVM", "C_SVM.CHEERFIGHT", ISvm, cheer_fight)
A("C_SVM", "C_SVM.CHEERFRIEND", ISvm, cheer_friend)
A("C_SVM", "C_SVM.OOH", ISvm, ooh)
A("C_SVM", "C_SVM.YEAHWELLDONE", ISvm, yeah_well_done)
A("C_SVM", "C_SVM.HEDEFEATEDHIM", ISvm, he_defeatedhim)
A("C_SVM", "C_SVM.HEDESERVEDIT", ISvm, he_deserv_edit)
A("C_SVM", "C_SVM.HEKILLEDHIM", ISvm, he_killed_him)
A("C_SVM", "C_SVM.ITWASAGOODFIGHT", ISvm, it_was_agood_fight)
A("C_SVM", "C_SVM.FRIENDLYGREETINGS", ISvm, friendly_greetings)
A("C_SVM", "C_SVM.ALGREETINGS", ISvm, al_greetings)
A("C_SVM", "C_SVM.MAGEGREETINGS", ISvm, mage_greetings)
A("C_SVM", "C_SVM.SECTGREETINGS", ISvm, sect_greetings)
A("C_SVM", "C_SVM.THEREHEIS", ISvm, there_he_is)
A("C_SVM", "C_SVM.NOLEARNOVERMAX", ISvm, no_learn_over_max)
A("C_SVM", "C_SVM.NOLEARNYOUALREADYKNOW", ISvm, no_learn_you_already_know)
A("C_SVM", "C_SVM.HEYYOU", ISvm, hey_you)
A("C_SVM", "C_SVM.WHATDOYOUWANT", ISvm, what_do_you_want)
A("C_SVM", "C_SVM.ISAIDWHATDOYOUWANT", ISvm, isaid_what_do_you_want)
A("C_SVM", "C_SVM.MAKEWAY", ISvm, make_way)
A("C_SVM", "C_SVM.OUTOFMYWAY", ISvm, out_of_my_way)
A("C_SVM", "C_SVM.YOUDEAFORWHAT", ISvm, you_deaf_or_what)
A("C_SVM", "C_SVM.LOOKAWAY", ISvm, look_away)
A("C_SVM", "C_SVM.OKAYKEEPIT", ISvm, okay_keep_it)
A("C_SVM", "C_SVM.WHATSTHAT", ISvm, whats_that)
A("C_SVM", "C_SVM.THATSMYWEAPON", ISvm, thats_my_weapon)
A("C_SVM", "C_SVM.GIVEITTOME", ISvm, give_it_tome)
A("C_SVM", "C_SVM.YOUCANKEEPTHECRAP", ISvm, you_can_keep_the_crap)
A("C_SVM", "C_SVM.THEYKILLEDMYFRIEND", ISvm, they_killed_my_friend)
A("C_SVM", "C_SVM.SUCKERGOTSOME", ISvm, sucker_got_some)
A("C_SVM", "C_SVM.SUCKERDEFEATEDEBR", ISvm, sucker_defeated_ebr)
A("C_SVM", "C_SVM.SUCKERDEFEATEDGUR", ISvm, sucker_defeated_gur)
A("C_SVM", "C_SVM.SUCKERDEFEATEDMAGE", ISvm, sucker_defeated_mage)
A("C_SVM", "C_SVM.SUCKERDEFEATEDNOV_GUARD", ISvm, sucker_defeated_nov_guard)
A("C_SVM", "C_SVM.SUCKERDEFEATEDVLK_GUARD", ISvm, sucker_defeated_vlk_guard)
A("C_SVM", "C_SVM.YOUDEFEATEDMYCOMRADE", ISvm, you_defeated_my_comrade)
A("C_SVM", "C_SVM.YOUDEFEATEDNOV_GUARD", ISvm, you_defeated_nov_guard)
A("C_SVM", "C_SVM.YOUDEFEATEDVLK_GUARD", ISvm, you_defeated_vlk_guard)
A("C_SVM", "C_SVM.YOUSTOLEFROMME", ISvm, you_stole_from_me)
A("C_SVM", "C_SVM.YOUSTOLEFROMUS", ISvm, you_stole_from_us)
A("C_SVM", "C_SVM.YOUSTOLEFROMEBR", ISvm, you_stole_from_ebr)
A("C_SVM", "C_SVM.YOUSTOLEFROMGUR", ISvm, you_stole_from_gur)
A("C_SVM", "C_SVM.STOLEFROMMAGE", ISvm, stole_urom_mage)
A("C_SVM", "C_SVM.YOUKILLEDMYFRIEND", ISvm, you_killedmyfriend)
A("C_SVM", "C_SVM.YOUKILLEDEBR", ISvm, you_killed_ebr)
A("C_SVM", "C_SVM.YOUKILLEDGUR", ISvm, you_killed_gur)
A("C_SVM", "C_SVM.YOUKILLEDMAGE", ISvm, you_killed_mage)
A("C_SVM", "C_SVM.YOUKILLEDOCFOLK", ISvm, you_killed_oc_folk)
A("C_SVM", "C_SVM.YOUKILLEDNCFOLK", ISvm, you_killed_nc_folk)
A("C_SVM", "C_SVM.YOUKILLEDPSIFOLK", ISvm, you_killed_psi_folk)
A("C_SVM", "C_SVM.GETTHINGSRIGHT", ISvm, get_things_right)
A("C_SVM", "C_SVM.YOUDEFEATEDMEWELL", ISvm, you_defeated_me_well)
A("C_SVM", "C_SVM.OM", ISvm, om)
A("C_MENU", "C_MENU.BACKPIC", IMenu, back_pic)
A("C_MENU", "C_MENU.BACKWORLD", IMenu, back_world)
A("C_MENU", "C_MENU.POSX", IMenu, pos_x)
A("C_MENU", "C_MENU.POSY", IMenu, pos_y)
A("C_MENU", "C_MENU.DIMX", IMenu, dim_x)
A("C_MENU", "C_MENU.DIMY", IMenu, dim_y)
A("C_MENU", "C_MENU.ALPHA", IMenu, alpha)
A("C_MENU", "C_MENU.MUSICTHEME", IMenu, music_theme)
A("C_MENU", "C_MENU.EVENTTIMERMSEC", IMenu, event_timer_msec)
A("C_MENU", "C_MENU.ITEMS", IMenu, items)
A("C_MENU", "C_MENU.FLAGS", IMenu, flags)
A("C_MENU", "C_MENU.DEFAULTOUTGAME", IMenu, default_outgame)
A("C_MENU", "C_MENU.DEFAULTINGAME", IMenu, default_ingame)
A("C_MENU_ITEM", "C_MENU_ITEM.FONTNAME", IMenuItem, fontname)
A("C_MENU_ITEM", "C_MENU_ITEM.TEXT", IMenuItem, text)
A("C_MENU_ITEM", "C_MENU_ITEM.BACKPIC", IMenuItem, backpic)
A("C_MENU_ITEM", "C_MENU_ITEM.ALPHAMODE", IMenuItem, alphamode)
A("C_MENU_ITEM", "C_MENU_ITEM.ALPHA", IMenuItem, alpha)
A("C_MENU_ITEM", "C_MENU_ITEM.TYPE", IMenuItem, type)
A("C_MENU_ITEM", "C_MENU_ITEM.ONSELACTION", IMenuItem, on_sel_action)
A("C_MENU_ITEM", "C_MENU_ITEM.ONSELACTION_S", IMenuItem, on_sel_action_s)
A("C_MENU_ITEM", "C_MENU_ITEM.ONCHGSETOPTION", IMenuItem, on_chg_set_option)
A("C_MENU_ITEM", "C_MENU_ITEM.ONCHGSETOPTIONSECTION", IMenuItem, on_chg_set_option_section)
A("C_MENU_ITEM", "C_MENU_ITEM.ONEVENTACTION", IMenuItem, on_event_action)
A("C_MENU_ITEM", "C_MENU_ITEM.POSX", IMenuItem, pos_x)
A("C_MENU_ITEM", "C_MENU_ITEM.POSY", IMenuItem, pos_y)
A("C_MENU_ITEM", "C_MENU_ITEM.DIMX", IMenuItem, dim_x)
A("C_MENU_ITEM", "C_MENU_ITEM.DIMY", IMenuItem, dim_y)
A("C_MENU_ITEM", "C_MENU_ITEM.SIZESTARTSCALE", IMenuItem, size_start_scale)
A("C_MENU_ITEM", "C_MENU_ITEM.FLAGS", IMenuItem, flags)
A("C_MENU_ITEM", "C_MENU_ITEM.OPENDELAYTIME", IMenuItem, open_delay_time)
A("C_MENU_ITEM", "C_MENU_ITEM.OPENDURATION", IMenuItem, open_duration)
A("C_MENU_ITEM", "C_MENU_ITEM.USERFLOAT", IMenuItem, user_float)
A("C_MENU_ITEM", "C_MENU_ITEM.USERSTRING", IMenuItem, user_string)
A("C_MENU_ITEM", "C_MENU_ITEM.FRAMESIZEX", IMenuItem, frame_sizex)
A("C_MENU_ITEM", "C_MENU_ITEM.FRAMESIZEY", IMenuItem, frame_sizey)
A("C_MENU_ITEM", "C_MENU_ITEM.FRAMEPOSX", IMenuItem, frame_posx)
A("C_MENU_ITEM", "C_MENU_ITEM.FRAMEPOSY", IMenuItem, frame_posy)
A("C_MENU_ITEM", "C_MENU_ITEM.HIDEIFOPTIONSECTIONSET", IMenuItem, hide_if_option_section_set)
A("C_MENU_ITEM", "C_MENU_ITEM.HIDEIFOPTIONSET", IMenuItem, hide_if_option_set)
A("C_MENU_ITEM", "C_MENU_ITEM.HIDEONVALUE", IMenuItem, hide_on_value)
A("CCAMSYS", "CCAMSYS.BESTRANGE", ICamera, best_range)
A("CCAMSYS", "CCAMSYS.MINRANGE", ICamera, min_range)
A("CCAMSYS", "CCAMSYS.MAXRANGE", ICamera, max_range)
A("CCAMSYS", "CCAMSYS.BESTELEVATION", ICamera, best_elevation)
A("CCAMSYS", "CCAMSYS.MINELEVATION", ICamera, min_elevation)
A("CCAMSYS", "CCAMSYS.MAXELEVATION", ICamera, max_elevation)
A("CCAMSYS", "CCAMSYS.BESTAZIMUTH", ICamera, best_azimuth)
A("CCAMSYS", "CCAMSYS.MINAZIMUTH", ICamera, min_azimuth)
A("CCAMSYS", "CCAMSYS.MAXAZIMUTH", ICamera, max_azimuth)
A("CCAMSYS", "CCAMSYS.BESTROTZ", ICamera, best_rot_z)
A("CCAMSYS", "CCAMSYS.MINROTZ", ICamera, min_rot_z)
A("CCAMSYS", "CCAMSYS.MAXROTZ", ICamera, max_rot_z)
A("CCAMSYS", "CCAMSYS.ROTOFFSETX", ICamera, rot_offset_x)
A("CCAMSYS", "CCAMSYS.ROTOFFSETY", ICamera, rot_offset_y)
A("CCAMSYS", "CCAMSYS.ROTOFFSETZ", ICamera, rot_offset_z)
A("CCAMSYS", "CCAMSYS.TARGETOFFSETX", ICamera, target_offset_x)
A("CCAMSYS", "CCAMSYS.TARGETOFFSETY", ICamera, target_offset_y)
A("CCAMSYS", "CCAMSYS.TARGETOFFSETZ", ICamera, target_offset_z)
A("CCAMSYS", "CCAMSYS.VELOTRANS", ICamera, velo_trans)
A("CCAMSYS", "CCAMSYS.VELOROT", ICamera, velo_rot)
A("CCAMSYS", "CCAMSYS.TRANSLATE", ICamera, translate)
A("CCAMSYS", "CCAMSYS.ROTATE", ICamera, rotate)
A("CCAMSYS", "CCAMSYS.COLLISION", ICamera, collision)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.VOLUME", IMusicSystem, volume)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.BITRESOLUTION", IMusicSystem, bit_resolution)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.GLOBALREVERBENABLED", IMusicSystem, global_reverb_enabled)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.SAMPLERATE", IMusicSystem, sample_rate)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.NUMCHANNELS", IMusicSystem, num_channels)
A("C_MUSICSYS_CFG", "C_MUSICSYS_CFG.REVERBBUFFERSIZE", IMusicSystem, reverb_buffer_size)
A("C_MUSICTHEME", "C_MUSICTHEME.FILE", IMusicTheme, file)
A("C_MUSICTHEME", "C_MUSICTHEME.VOL", IMusicTheme, vol)
A("C_MUSICTHEME", "C_MUSICTHEME.LOOP", IMusicTheme, loop)
A("C_MUSICTHEME", "C_MUSICTHEME.REVERBMIX", IMusicTheme, reverbmix)
A("C_MUSICTHEME", "C_MUSICTHEME.REVERBTIME", IMusicTheme, reverbtime)
A("C_MUSICTHEME", "C_MUSICTHEME.TRANSTYPE", IMusicTheme, transtype)
A("C_MUSICTHEME", "C_MUSICTHEME.TRANSSUBTYPE", IMusicTheme, transsubtype)
A("C_MUSICJINGLE", "C_MUSICJINGLE.NAME", IMusicJingle, name)
A("C_MUSICJINGLE", "C_MUSICJINGLE.LOOP", IMusicJingle, loop)
A("C_MUSICJINGLE", "C_MUSICJINGLE.VOL", IMusicJingle, vol)
A("C_MUSICJINGLE", "C_MUSICJINGLE.TRANSSUBTYPE", IMusicJingle, transsubtype)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSVALUE", IParticleEffect, pps_value)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSSCALEKEYS_S", IParticleEffect, pps_scale_keys_s)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSISLOOPING", IParticleEffect, pps_is_looping)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSISSMOOTH", IParticleEffect, pps_is_smooth)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSFPS", IParticleEffect, pps_fps)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSCREATEEM_S", IParticleEffect, pps_create_em_s)
A("C_PARTICLEFX", "C_PARTICLEFX.PPSCREATEEMDELAY", IParticleEffect, pps_create_em_delay)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPTYPE_S", IParticleEffect, shp_type_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPFOR_S", IParticleEffect, shp_for_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPOFFSETVEC_S", IParticleEffect, shp_offset_vec_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPDISTRIBTYPE_S", IParticleEffect, shp_distrib_type_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPDISTRIBWALKSPEED", IParticleEffect, shp_distrib_walk_speed)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPISVOLUME", IParticleEffect, shp_is_volume)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPDIM_S", IParticleEffect, shp_dim_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPMESH_S", IParticleEffect, shp_mesh_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPMESHRENDER_B", IParticleEffect, shp_mesh_render_b)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPSCALEKEYS_S", IParticleEffect, shp_scale_keys_s)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPSCALEISLOOPING", IParticleEffect, shp_scale_is_looping)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPSCALEISSMOOTH", IParticleEffect, shp_scale_is_smooth)
A("C_PARTICLEFX", "C_PARTICLEFX.SHPSCALEFPS", IParticleEffect, shp_scale_fps)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRMODE_S", IParticleEffect, dir_mode_s)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRFOR_S", IParticleEffect, dir_for_s)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRMODETARGETFOR_S", IParticleEffect, dir_mode_target_for_s)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRMODETARGETPOS_S", IParticleEffect, dir_mode_target_pos_s)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRANGLEHEAD", IParticleEffect, dir_angle_head)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRANGLEHEADVAR", IParticleEffect, dir_angle_head_var)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRANGLEELEV", IParticleEffect, dir_angle_elev)
A("C_PARTICLEFX", "C_PARTICLEFX.DIRANGLEELEVVAR", IParticleEffect, dir_angle_elev_var)
A("C_PARTICLEFX", "C_PARTICLEFX.VELAVG", IParticleEffect, vel_avg)
A("C_PARTICLEFX", "C_PARTICLEFX.VELVAR", IParticleEffect, vel_var)
A("C_PARTICLEFX", "C_PARTICLEFX.LSPPARTAVG", IParticleEffect, lsp_part_avg)
A("C_PARTICLEFX", "C_PARTICLEFX.LSPPARTVAR", IParticleEffect, lsp_part_var)
A("C_PARTICLEFX", "C_PARTICLEFX.FLYGRAVITY_S", IParticleEffect, fly_gravity_s)
A("C_PARTICLEFX", "C_PARTICLEFX.FLYCOLLDET_B", IParticleEffect, fly_colldet_b)
A("C_PARTICLEFX", "C_PARTICLEFX.VISNAME_S", IParticleEffect, vis_name_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISORIENTATION_S", IParticleEffect, vis_orientation_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISTEXISQUADPOLY", IParticleEffect, vis_tex_is_quadpoly)
A("C_PARTICLEFX", "C_PARTICLEFX.VISTEXANIFPS", IParticleEffect, vis_tex_ani_fps)
A("C_PARTICLEFX", "C_PARTICLEFX.VISTEXANIISLOOPING", IParticleEffect, vis_tex_ani_is_looping)
A("C_PARTICLEFX", "C_PARTICLEFX.VISTEXCOLORSTART_S", IParticleEffect, vis_tex_color_start_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISTEXCOLOREND_S", IParticleEffect, vis_tex_color_end_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISSIZESTART_S", IParticleEffect, vis_size_start_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISSIZEENDSCALE", IParticleEffect, vis_size_end_scale)
A("C_PARTICLEFX", "C_PARTICLEFX.VISALPHAFUNC_S", IParticleEffect, vis_alpha_func_s)
A("C_PARTICLEFX", "C_PARTICLEFX.VISALPHASTART", IParticleEffect, vis_alpha_start)
A("C_PARTICLEFX", "C_PARTICLEFX.VISALPHAEND", IParticleEffect, vis_alpha_end)
A("C_PARTICLEFX", "C_PARTICLEFX.TRLFADESPEED", IParticleEffect, trl_fade_speed)
A("C_PARTICLEFX", "C_PARTICLEFX.TRLTEXTURE_S", IParticleEffect, trl_texture_s)
A("C_PARTICLEFX", "C_PARTICLEFX.TRLWIDTH", IParticleEffect, trl_width)
A("C_PARTICLEFX", "C_PARTICLEFX.MRKFADESPEED", IParticleEffect, mrk_fades_peed)
A("C_PARTICLEFX", "C_PARTICLEFX.MRKTEXTURE_S", IParticleEffect, mrkt_exture_s)
A("C_PARTICLEFX", "C_PARTICLEFX.MRKSIZE", IParticleEffect, mrk_size)
A("C_PARTICLEFX", "C_PARTICLEFX.FLOCKMODE", IParticleEffect, flock_mode)
A("C_PARTICLEFX", "C_PARTICLEFX.FLOCKSTRENGTH", IParticleEffect, flock_strength)
A("C_PARTICLEFX", "C_PARTICLEFX.USEEMITTERSFOR", IParticleEffect, use_emitters_for)
A("C_PARTICLEFX", "C_PARTICLEFX.TIMESTARTEND_S", IParticleEffect, time_start_end_s)
A("C_PARTICLEFX", "C_PARTICLEFX.M_BISAMBIENTPFX", IParticleEffect, m_bis_ambient_pfx)
A("CFX_BASE", "CFX_BASE.VISNAME_S", IEffectBase, vis_name_s)
A("CFX_BASE", "CFX_BASE.VISSIZE_S", IEffectBase, vis_size_s)
A("CFX_BASE", "CFX_BASE.VISALPHA", IEffectBase, vis_alpha)
A("CFX_BASE", "CFX_BASE.VISALPHABLENDFUNC_S", IEffectBase, vis_alpha_blend_func_s)
A("CFX_BASE", "CFX_BASE.VISTEXANIFPS", IEffectBase, vis_tex_ani_fps)
A("CFX_BASE", "CFX_BASE.VISTEXANIISLOOPING", IEffectBase, vis_tex_ani_is_looping)
A("CFX_BASE", "CFX_BASE.EMTRJMODE_S", IEffectBase, em_trj_mode_s)
A("CFX_BASE", "CFX_BASE.EMTRJORIGINNODE", IEffectBase, em_trj_origin_node)
A("CFX_BASE", "CFX_BASE.EMTRJTARGETNODE", IEffectBase, em_trj_target_node)
A("CFX_BASE", "CFX_BASE.EMTRJTARGETRANGE", IEffectBase, em_trj_target_range)
A("CFX_BASE", "CFX_BASE.EMTRJTARGETAZI", IEffectBase, em_trj_target_azi)
A("CFX_BASE", "CFX_BASE.EMTRJTARGETELEV", IEffectBase, em_trj_target_elev)
A("CFX_BASE", "CFX_BASE.EMTRJNUMKEYS", IEffectBase, em_trj_num_keys)
A("CFX_BASE", "CFX_BASE.EMTRJNUMKEYSVAR", IEffectBase, em_trj_num_keys_var)
A("CFX_BASE", "CFX_BASE.EMTRJANGLEELEVVAR", IEffectBase, em_trj_angle_elev_var)
A("CFX_BASE", "CFX_BASE.EMTRJANGLEHEADVAR", IEffectBase, em_trj_angle_head_var)
A("CFX_BASE", "CFX_BASE.EMTRJKEYDISTVAR", IEffectBase, em_trj_key_dist_var)
A("CFX_BASE", "CFX_BASE.EMTRJLOOPMODE_S", IEffectBase, em_trj_loop_mode_s)
A("CFX_BASE", "CFX_BASE.EMTRJEASEFUNC_S", IEffectBase, em_trj_ease_func_s)
A("CFX_BASE", "CFX_BASE.EMTRJEASEVEL", IEffectBase, em_trj_ease_vel)
A("CFX_BASE", "CFX_BASE.EMTRJDYNUPDATEDELAY", IEffectBase, em_trj_dyn_update_delay)
A("CFX_BASE", "CFX_BASE.EMTRJDYNUPDATETARGETONLY", IEffectBase, em_trj_dyn_update_target_only)
A("CFX_BASE", "CFX_BASE.EMFXCREATE_S", IEffectBase, em_fx_create_s)
A("CFX_BASE", "CFX_BASE.EMFXINVESTORIGIN_S", IEffectBase, em_fx_invest_origin_s)
A("CFX_BASE", "CFX_BASE.EMFXINVESTTARGET_S", IEffectBase, em_fx_invest_target_s)
A("CFX_BASE", "CFX_BASE.EMFXTRIGGERDELAY", IEffectBase, em_fx_trigger_delay)
A("CFX_BASE", "CFX_BASE.EMFXCREATEDOWNTRJ", IEffectBase, em_fx_create_down_trj)
A("CFX_BASE", "CFX_BASE.EMACTIONCOLLDYN_S", IEffectBase, em_action_coll_dyn_s)
A("CFX_BASE", "CFX_BASE.EMACTIONCOLLSTAT_S", IEffectBase, em_action_coll_stat_s)
A("CFX_BASE", "CFX_BASE.EMFXCOLLSTAT_S", IEffectBase, em_fx_coll_stat_s)
A("CFX_BASE", "CFX_BASE.EMFXCOLLDYN_S", IEffectBase, em_fx_coll_dyn_s)
A("CFX_BASE", "CFX_BASE.EMFXCOLLSTATALIGN_S", IEffectBase, em_fx_coll_stat_align_s)
A("CFX_BASE", "CFX_BASE.EMFXCOLLDYNALIGN_S", IEffectBase, em_fx_coll_dyn_align_s)
A("CFX_BASE", "CFX_BASE.EMFXLIFESPAN", IEffectBase, em_fx_lifespan)
A("CFX_BASE", "CFX_BASE.EMCHECKCOLLISION", IEffectBase, em_check_collision)
A("CFX_BASE", "CFX_BASE.EMADJUSTSHPTOORIGIN", IEffectBase, em_adjust_shp_to_origin)
A("CFX_BASE", "CFX_BASE.EMINVESTNEXTKEYDURATION", IEffectBase, em_invest_next_key_duration)
A("CFX_BASE", "CFX_BASE.EMFLYGRAVITY", IEffectBase, em_fly_gravity)
A("CFX_BASE", "CFX_BASE.EMSELFROTVEL_S", IEffectBase, em_self_rot_vel_s)
A("CFX_BASE", "CFX_BASE.USERSTRING", IEffectBase, user_string)
A("CFX_BASE", "CFX_BASE.LIGHTPRESETNAME", IEffectBase, light_preset_name)
A("CFX_BASE", "CFX_BASE.SFXID", IEffectBase, sfx_id)
A("CFX_BASE", "CFX_BASE.SFXISAMBIENT", IEffectBase, sfx_is_ambient)
A("CFX_BASE", "CFX_BASE.SENDASSESSMAGIC", IEffectBase, send_assess_magic)
A("CFX_BASE", "CFX_BASE.SECSPERDAMAGE", IEffectBase, secs_per_damage)
A("CFX_BASE", "CFX_BASE.EMFXCOLLDYNPERC_S", IEffectBase, em_fx_coll_dyn_perc_s)
