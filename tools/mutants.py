#!/usr/bin/env python3
"""tools/mutants.py [ID...]: small changes that break a property (and, r-*, some that break none), each run against
the checks named with it in a scratch copy. Only a development aid: no check reads this."""
import sys, os, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = []
def m(i, props, *edits): M.append((i, props.split(), edits))
C = "src/cache.rs"; G = "src/graph.rs"
m("c-refuse-ge", "C01 C02", (C, "if value_bytes > self.capacity_bytes {", "if value_bytes >= self.capacity_bytes {"))
m("c-evict-exact", "C01", (C, "if value < self.used_bytes {\n            let free", "if value + 1 < self.used_bytes {\n            let free"))
m("c-evictbytes-strict", "C01", (C, "while (self.used_bytes > requested_capacity)", "while (self.used_bytes > requested_capacity + 1)"))
m("c-evictall-one-left", "C01", (C, "        while self.lru_hash_map.len() > 0 {\n            self.evict();", "        while self.lru_hash_map.len() > 1 {\n            self.evict();"))
m("c-pop-back", "C02", (C, "self.lru_hash_map.pop_front()", "self.lru_hash_map.pop_back()"))
m("c-evict-success", "C02", (C, "            success = true;\n            self.evictions += 1;", "            success = value_bytes > 0;\n            self.evictions += 1;"))
m("c-insert-zero", "C02", (C, "        let value_bytes = value.size_bytes();\n        if value_bytes > self.capacity_bytes", "        let value_bytes = value.size_bytes();\n        if value_bytes == 0 { return; }\n        if value_bytes > self.capacity_bytes"))
m("c-refuse-drops-old", "C02", (C, "            error!(\"Cannot insert into Cache; value is larger than the capacity.\");\n", "            error!(\"Cannot insert into Cache; value is larger than the capacity.\");\n            self.evict();\n"))
m("g-input-sort-u4", "G01 G03", (G, "inputs.sort_by_key(|x| x.0);", "inputs.sort_by_key(|x| x.0 & 127);"))
m("g-disc-ge", "G01", (G, ".filter(|x| *x.weight() == input_num)", ".filter(|x| *x.weight() == input_num || *x.weight() == 255)"))
m("g-connect-order", "G01", (G, "        self.disconnect_input(dst_node_id, input_num);\n\n        self.graph.add_edge(src_index, dst_index, input_num);", "        if src_index != dst_index { self.disconnect_input(dst_node_id, input_num); }\n\n        self.graph.add_edge(src_index, dst_index, input_num);"))
m("g-connect-update", "G01 G03 G04", (G, "        self.graph.add_edge(src_index, dst_index, input_num);", "        self.graph.update_edge(src_index, dst_index, input_num);"))
m("g-remove-bad", "G01", (G, "            Some(_value) => {\n                self.state = GraphState::Dirty;\n                true", "            Some(_value) => {\n                self.state = GraphState::Dirty;\n                self.ids[node_idx] = 0;\n                true"))
m("g-status-not-stored", "G02", (G, "                        ErrorCode::Failure => {\n                            self.status = ExecuteStatus::Error;\n                        }", "                        ErrorCode::Failure => {\n                            return ExecuteStatus::Error;\n                        }"))
m("g-warning-fails", "G02", (G, "NodeStatus::Valid | NodeStatus::Warning => {", "NodeStatus::Valid => {"))
m("g-output-first-frame", "G03 G04", (G, "        for frame in frames {\n            debug!(\"Execute Frame", "        for frame in frames.iter().rev() {\n            debug!(\"Execute Frame"))
m("g-stop-after-error", "G02", (G, "                    return self.status;\n                }\n                _ => (),", "                    if frames.len() == 1 { return self.status; }\n                }\n                _ => (),"))
MI = "src/ops/imagemerge.rs"; MN = "src/node/merge_image.rs"
m("merge-mul-alpha", "G03", (MI, "let a = a_a * (a_b * mask);", "let a = a_a * a_b;"))
m("merge-display-a", "G03", (MI, "image_out.display_window = image_b.display_window;", "image_out.display_window = image_a.display_window;"))
m("merge-offset-y", "G03", (MI, "let image_y = y - image.data_window.min_y;", "let image_y = y - image.data_window.min_y.max(0);"))
m("merge-hash-mix", "K01 K02", (MN, "            HashableF32::new(self.mix).hash(state);\n", ""))
m("merge-order-channels", "G03", (MI, "if num_channels == 4 {\n            a =", "if num_channels >= 4 && x >= image.data_window.min_x {\n            a ="), (MI, "    let mut a = 0.0;\n    if index", "    let mut a = if num_channels == 3 { 1.0 } else { 0.0 };\n    if index"))
m("merge-disp-cache", "K01", (MN, "                        cached_img.data_window,\n                        cached_img.display_window,", "                        cached_img.data_window,\n                        cached_img.data_window,"))
m("merge-colour-space", "B01", (MN, "&from_color_space_b,\n", "&from_color_space_a,\n"))
T = "src/node/traits.rs"
m("hash-xor-inputs", "K01 K02", (T, "        for input_hash in inputs_hash {\n            input_hash.hash(&mut state);\n        }", "        let mut all = 0u64;\n        for input_hash in inputs_hash {\n            all ^= *input_hash;\n        }\n        all.hash(&mut state);"))
m("hash-no-type", "K01 K02", (T, "        node_type_id.hash(&mut state);\n", "        let _ = node_type_id;\n"))
m("hash-first-input", "K01 K02", (T, "for input_hash in inputs_hash {", "for input_hash in inputs_hash.iter().take(1) {"))
H = "src/hashutils.rs"
m("hash-f32-sign", "K02", (H, "let sign: i8 = if bits >> 31 == 0 { 1 } else { -1 };", "let sign: i8 = if bits >> 31 == 0 || exponent_zero(bits) { 1 } else { -1 };"), (H, "/// Returns the mantissa", "fn exponent_zero(bits: u32) -> bool { (bits >> 23) & 0xff == 0 }\n/// Returns the mantissa"))
m("hash-f32-mant", "K01 K02", (H, "(bits & 0x7fffff) | 0x800000\n    };\n    // Exp", "(bits & 0x7ffffe) | 0x800000\n    };\n    // Exp"))
VW = "src/node/viewer.rs"
m("viewer-hash-crop", "K01 K02", (VW, "            self.crop_to_format.hash(state);\n", ""))
m("viewer-hash-type", "K01 K02", (VW, "            self.bake_pixel_data_type.hash(state);\n", ""))
m("viewer-hash-space", "K01 K02", (VW, "            self.bake_color_space.hash(state);\n", ""))
m("viewer-cached-window", "K01", (VW, "                            cached_img.data_window,\n                            cached_img.display_window,", "                            cached_img.display_window,\n                            cached_img.display_window,"))
m("viewer-crop-option", "F01", (VW, "            let bake_option = if crop_to_format {\n                BakeOption::All\n            } else {\n                BakeOption::from(bake_option_initial)\n            };\n\n            let bake_pixel", "            let bake_option = bake_option_initial;\n\n            let bake_pixel"))
m("viewer-space-spec", "F01", ("src/ops/bake.rs", "    if ok {\n        image_spec.set_color_space(to_color_space.to_string())\n    } else {", "    image_spec.set_color_space(to_color_space.to_string());\n    if !ok {"))
m("bake-order", "F01 W01 O01", ("src/ops/bake.rs", "    ops::xformcolor::apply_color_matrix_inplace(pixels, num_channels, color_matrix);\n\n    // Apply Color Operations (in linear color space)\n    debug!(\"apply color operations: START\");\n    coloroputils::apply_color_ops_to_pixels(&color_ops, pixels, num_channels);", "    coloroputils::apply_color_ops_to_pixels(&color_ops, pixels, num_channels);\n    ops::xformcolor::apply_color_matrix_inplace(pixels, num_channels, color_matrix);"))
m("bake-alpha-index", "F01", ("src/ops/bake.rs", "if num_channels > 3 {", "if num_channels > 4 {"))
m("bake-unassoc", "F01", ("src/ops/bake.rs", "let unassociated_alpha = image_spec.unassociated_alpha();", "let unassociated_alpha = image_spec.unassociated_alpha() && num_channels != 4;"))
m("bake-grade-no-linear", "F01", ("src/ops/bake.rs", "            do_process_stream_colorgrade(pixel_block, stream_data);\n\n            // Convert from Linear to user given color space.\n            do_process", "            if !stream_data.color_ops().is_empty() { do_process_stream_colorgrade(pixel_block, stream_data); }\n\n            // Convert from Linear to user given color space.\n            do_process"))
W = "src/node/write_image.rs"
m("write-jpe", "W01", (W, "        || path_expanded.ends_with(\".jfi\")\n", ""))
m("write-case", "W01", (W, "path_expanded.ends_with(\".exr\");", "path_expanded.contains(\".exr\");"))
m("write-png-level", "W01", (W, "                        png_compression_level,\n", "                        png_compression_level: png_compression_level.min(9),\n"))
m("write-frame-trunc", "S01 W01", (W, "let frame_num = frame.round().trunc() as i32;\n    let path", "let frame_num = frame.trunc() as i32;\n    let path"))
m("write-type", "W01", (W, "DataType::Unknown => copy.pixel_data_type(),", "DataType::Unknown => DataType::Float32,"))
m("write-output", "W01", (W, "                    *output = inputs[0].clone();\n                    NodeStatus::Valid\n                }\n            }", "                    *output = Rc::new(StreamDataImpl::new());\n                    NodeStatus::Valid\n                }\n            }"))
m("write-threads", "W01", ("src/imageio.rs", "            oiio_set_thread_count(old_num_threads);\n\n            ok", "            if ok { oiio_set_thread_count(old_num_threads); }\n\n            ok"))
m("write-crop-disp", "W01", ("src/imageio.rs", "let crop_window = image.display_window;", "let crop_window = BBox2Di::intersection(image.display_window, image.data_window);"))
R = "src/node/read_image.rs"
m("read-hash-path", "K01 R01", (R, "            path_expanded.hash(state);", "            path_expanded.len().hash(state);"))
m("read-hash-frame", "K01 S01 K02", (R, "            let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);\n            path_expanded.hash(state);", "            let _ = frame_num;\n            self.file_path.hash(state);"))
m("read-cache-missing", "R01", (R, "                    let stream_data = StreamDataImpl::new();\n                    *output = std::rc::Rc::new(stream_data);\n                    return NodeStatus::Warning;\n                }\n            };", "                    let stream_data = StreamDataImpl::new();\n                    *output = std::rc::Rc::new(stream_data);\n                    return NodeStatus::Valid;\n                }\n            };"))
m("read-disp", "R01", (R, "                        (\n                            pixel_block_rc.clone(),\n                            img.spec.clone(),\n                            img.data_window,\n                            img.display_window,\n                        )\n                    }\n                };", "                        (\n                            pixel_block_rc.clone(),\n                            img.spec.clone(),\n                            img.data_window,\n                            img.data_window,\n                        )\n                    }\n                };"))
m("read-threads", "R01", ("src/imageio.rs", "            oiio_set_thread_count(old_num_threads);\n            if ok == false {", "            if ok == false {"))
P = "src/pathutils.rs"
m("path-last-run", "S01", (P, "                // '#'.\n                break;", "                // '#'.\n                last_char_valid = false;"))
m("path-neg", "S01", (P, "format!(\"{:0width$}\", frame, width = index_range.padding_count)", "if frame < 0 { format!(\"-{:0width$}\", frame.unsigned_abs(), width = index_range.padding_count) } else { format!(\"{:0width$}\", frame, width = index_range.padding_count) }"))
m("path-width8", "S01", (P, "width = index_range.padding_count);", "width = index_range.padding_count.min(8));"))
m("path-chars", "S01", (P, "value.bytes().enumerate()", "value.chars().map(|c| c as u8).enumerate()"))
CR = "src/ops/imagecrop.rs"; PB = "src/pixelblock/pixelblock.rs"; BB = "src/bbox/bbox2di.rs"
m("crop-reformat-black", "I01", (CR, "        true => crop_window,\n    };", "        true => new_data_window,\n    };"))
m("crop-attr", "I01", ("src/node/crop_image.rs", "BBox2Di::new(window_min_x, window_min_y, window_max_x, window_max_y)", "BBox2Di::new(window_min_x, window_min_y, window_max_x, window_max_y.max(window_min_x))"))
m("crop-off", "I01", (PB, "let dst_offset_x = diff_window.min_x - crop_window.min_x;", "let dst_offset_x = data_window.min_x - crop_window.min_x;"))
m("crop-u16", "I01 W01", (PB, "                    let src_data = &pixel_block.as_slice_u16()[src_start_index..src_end_index];\n                    dst_data.copy_from_slice(src_data);", "                    let src_data = &pixel_block.as_slice_u16()[src_start_index..src_end_index];\n                    if y > diff_window.min_y { dst_data.copy_from_slice(src_data); }"))
m("crop-hash-black", "K01 K02", ("src/node/crop_image.rs", "        self.black_outside.hash(state);\n", ""))
m("crop-status", "B01 K01", ("src/node/crop_image.rs", "        stream_data.clear_deformers();\n\n        stream_data.set_hash", "        stream_data.set_hash"))
m("bbox-touch", "X01", (BB, "let x2 = i32::max(x1, i32::min(a.max_x, b.max_x));", "let x2 = i32::min(a.max_x, b.max_x);"))
m("bbox-combine", "X01 G03", (BB, "max_y: i32::max(a.max_y, b.max_y),", "max_y: i32::max(a.max_y, b.min_y),"))
BS = "src/pixelblock/blocksize.rs"
m("bs-max", "X01 G03", (BS, "(index_y > max_y)", "(index_y > max_y + 1)"))
m("bs-xneg", "X01 G03", (BS, "if (index_x < 0) ||", "if (index < 0) ||"))
m("bs-xy", "X01", (BS, "let y = ix / row_stride as usize;", "let y = ix / (self.width() as usize * 3.max(self.num_channels() as usize));"))
DB = "src/pixelblock/datablock.rs"; UT = "src/pixelblock/utils.rs"
m("db-fill-f16", "X01", (DB, "let fill_value_f16 = f16::from_f32(1.0);", "let fill_value_f16 = f16::MAX;"))
m("db-conv-u8", "X01", (UT, "let f = |x: u8| f16::from_f32((x as f32) / (u8::max_value() as f32));", "let f = |x: u8| f16::from_f32((x as f32) / 256.0);"))
m("db-conv-u16", "X01", (UT, "let v = (x as f32) / (u16::max_value() as f32);\n                (v * (u8::max_value() as f32)) as u8", "(x >> 8) as u8"))
m("db-resize-type", "X01", (DB, "                DataBlockEnum::UInt16(data) => {\n                    data.resize(new_length, fill_value_u16);", "                DataBlockEnum::UInt16(data) => {\n                    data.clear();\n                    data.resize(new_length, fill_value_u16);"))
m("db-round", "X01", (UT, "let f = |x: f32| ((x as f32) * (u8::max_value() as f32)) as u8;", "let f = |x: f32| ((x as f32) * (u8::max_value() as f32)) as i32 as u8;"))
CG = "src/ops/colorgrade.rs"
m("grade-lift", "O01", (CG, "        lift.z,\n", "        lift.y,\n"))
m("grade-rev-b", "O01", (CG, "            b = -b * a;", "            b = -b;"))
m("grade-rev-gamma", "O01", (CG, "v = 1.0 + (v - 1.0) * gamma;", "v = v.powf(gamma);"))
m("grade-node-order", "O01", ("src/coloroputils.rs", "for color_op in enabled_color_ops {", "for color_op in enabled_color_ops.into_iter().rev() {"))
m("grade-work", "O01 N01", ("src/node/grade.rs", "(process_b != 0) || (process_a != 0));", "(process_b != 0));"))
m("grade-hash-gamma", "K01 K02", ("src/node/grade.rs", "            HashableF32::new(self.gamma_b).hash(state);\n", ""))
m("grade-op-hash", "L01", ("src/colorop/colorgrade.rs", "            HashableF32::new(self.offset_g).hash(state);\n", ""))
TR = "src/deformer/transform.rs"
m("tr-invert", "D01", (TR, "        if obj.invert == 0 {\n            do_invert = true;", "        if obj.invert <= 0 {\n            do_invert = true;"))
m("tr-ty", "D01", (TR, "obj.translate_y / (image_window.max_y - image_window.min_y)", "obj.translate_y / (image_window.max_x - image_window.min_x)"))
m("tr-center", "D01", ("src/math/xform.rs", "center_y * (1.0 - c) - center_x * s", "center_y * (1.0 - c) + center_x * s"))
m("tr-order", "D01", (TR, "TransformationOrder::SRT;", "TransformationOrder::TRS;"))
m("tr-pivot", "D01", ("src/node/transform.rs", "deformer.set_attr_f32(\"pivot_y\", attr_block.get_attr_f32(\"pivot_y\"));", "deformer.set_attr_f32(\"pivot_y\", attr_block.get_attr_f32(\"pivot_x\"));"))
m("tr-stride", "D01", ("src/deformutils.rs", "    for deformer in enabled_deformers.iter().rev() {", "    for deformer in enabled_deformers.iter() {"))
m("remap-clamp", "D01", ("src/pixel.rs", "let sy = (y.round() as i32).max(0).min(height - 1);\n\n    let index = get_pixel_index(width, height, x_stride, y_stride, sx, sy);\n\n    // TODO", "let sy = (y.round() as i32).max(0).min(width - 1);\n\n    let index = get_pixel_index(width, height, x_stride, y_stride, sx, sy);\n\n    // TODO"))
m("tr-hash", "K01 K02", ("src/node/transform.rs", "        HashableF32::new(self.rotate_center_y).hash(state);\n", ""))
m("lens-hash", "K01 K02", ("src/node/lens_distort.rs", "        self.direction.hash(state);\n", ""))
m("lens-attr", "A01 D01", ("src/deformer/tde4_classic.rs", "\"curvature_y\" => self.curvature_y = value,", "\"curvature_y\" => self.curvature_x = value,"))
m("lut-1d", "L01", ("src/colorlutimage.rs", "((i / edge_length) % edge_length) as f32 * c;", "((i / edge_length) % edge_length) as f32 / edge_length as f32;"))
m("lut-key", "L01", ("src/colorlutimage.rs", "    hasher.write_i32(num_channels);\n", ""))
m("lut-key2", "L01", ("src/colorlutimage.rs", "    hasher.write(b\"3DLUT Size:\");\n    hasher.write_i32(cube_size);", "    hasher.write(b\"3DLUT Size:\");\n    hasher.write_u8(cube_size as u8);"))
m("lut-space", "L01", ("src/colorlutimage.rs", "    image_spec.set_color_space(from_color_space.to_string());", "    image_spec.set_color_space(to_color_space.to_string());"), )
m("plane-uv", "M01", ("src/geom/plane.rs", "buffer[index + 1] = 1.0 + ((row as f32) * square_size_y * -1.0);", "buffer[index + 1] = 1.0 + ((row as f32) * square_size_x * -1.0);"))
m("plane-wire", "M01", ("src/geom/plane.rs", "        let bottom_left = (top_left + self.divisions_x) as u32;", "        let bottom_left = (top_left + self.divisions_x.max(2).min(6)) as u32;"))
m("cfg-div", "P01", ("src/config.rs", "(ram_bytes as f32 * ram_factor) as usize", "(ram_bytes as f32 * ram_factor) as u32 as usize"))
m("n-resample-hash", "N01 K02", ("src/node/resample_image.rs", "        if self.enable == 1 {\n            if self.factor", "        if self.enable != 0 {\n            if self.factor"))
m("n-null", "N01", ("src/node/null.rs", "                *output = ", "                let _keep = 0;\n                *output = "))
m("n-write-enable", "N01 W01", (W, "let enable = attr_block.get_attr_i32(\"enable\") != 0;\n        if enable == false {\n            let stream", "let enable = attr_block.get_attr_i32(\"enable\") > 0;\n        if enable == false {\n            let stream"))
m("attr-mix", "A01", (MN, "            \"mix\" => self.mix = value,", "            \"mix\" => self.mix = value.max(0.0),"))
m("attr-viewer", "A01", (VW, "            \"crop_to_format\" => self.crop_to_format = value,", "            \"crop_to_format\" => self.crop_to_format = (value != 0) as i32,"))
m("attr-path", "A01", (R, "\"file_path\" => self.file_path = value.to_string(),", "\"file_path\" => self.file_path = value.trim().to_string(),"))
m("stream-rc", "X01", ("src/stream.rs", "Rc::make_mut(&mut self.pixel_block)", "unsafe { &mut *(Rc::as_ptr(&self.pixel_block) as *mut PixelBlock) }"))
m("deformers-clone", "D01 G04", ("src/deformer.rs", "        obj_box.commit_data().unwrap();\n", ""))
# behaviour kept
m("r-cache-insert", "C01 C02 K01", (C, "        let expected_bytes = self.used_bytes + value_bytes;\n        if expected_bytes > self.capacity_bytes {\n            let require_used = self.capacity_bytes - value_bytes;\n            let free_bytes_needed = self.used_bytes - require_used;\n            self.evict_bytes(free_bytes_needed);\n        }\n", "        while self.used_bytes + value_bytes > self.capacity_bytes && self.evict() {}\n"))
m("r-graph-iter", "G01 G02 G03 G04", (G, "        let mut inputs: Vec<_> = self\n            .graph\n            .edges_directed(start_index, Direction::Incoming)\n            .map(|x| (*x.weight(), x.source()))\n            .collect();\n        inputs.sort_by_key(|x| x.0);\n        inputs.into_iter().map(|x| x.1).collect()", "        let mut inputs = std::collections::BTreeMap::new();\n        for edge in self.graph.edges_directed(start_index, Direction::Incoming) {\n            inputs.insert(*edge.weight(), edge.source());\n        }\n        inputs.values().copied().collect()"))
m("r-merge-loop", "G03 K01", (MI, "    for row in out_data_window.min_y..out_data_window.max_y {\n        for col in out_data_window.min_x..out_data_window.max_x {\n", "    let width = out_data_window.width();\n    for i in 0..out_data_window.height() {\n        let row = out_data_window.min_y + i;\n        for j in 0..width {\n            let col = j + out_data_window.min_x;\n"))
m("r-crop-copy", "I01 W01 F01", (PB, "        for y in diff_window.min_y..diff_window.max_y {\n", "        let mut y = diff_window.min_y - 1;\n        while y + 1 < diff_window.max_y {\n            y += 1;\n"))
m("r-conv", "X01 F01", (UT, "    for from_value in pixel_slice {\n        let to_value = convert_func(*from_value);\n        new_pixels.push(to_value);\n    }", "    new_pixels.extend(pixel_slice.iter().map(|v| convert_func(*v)));"))
m("r-grade", "O01", (CG, "        (a * pixel + b).powf(1.0 / gamma)\n", "        let exponent = 1.0 / gamma;\n        let linear = pixel * a + b;\n        linear.powf(exponent)\n"))
m("r-path", "S01", (P, "    let padding_count = end_index - start_index;\n    Frame", "    let padding_count = value[start_index..end_index].len();\n    Frame"))
m("r-path2", "S01", (P, "    expanded_string.replace_range(\n        index_range.start_index..index_range.end_index,\n        &frame_string,\n    );\n    expanded_string", "    let tail = expanded_string.split_off(index_range.end_index);\n    expanded_string.truncate(index_range.start_index);\n    expanded_string.push_str(&frame_string);\n    expanded_string.push_str(&tail);\n    expanded_string"))
m("r-hash", "K01 K02", (H, "    let mantissa = if exponent == 0 {\n        (bits & 0x7fffff) << 1\n    } else {\n        (bits & 0x7fffff) | 0x800000\n    };\n    // Exponent", "    let fraction = bits & 0x7fffff;\n    let mantissa = match exponent {\n        0 => fraction * 2,\n        _ => fraction + 0x800000,\n    };\n    // Exponent"))
m("r-plane", "M01", ("src/geom/plane.rs", "let pos_x = math::interp::lerp(min_x, max_x, x) - self.center_x;", "let pos_x = -self.center_x + math::interp::lerp(min_x, max_x, x);"))
m("r-viewer", "F01 K01 N01", (VW, "            let use_cache = attr_block.get_attr_i32(\"use_cache\") != 0;\n            let (pixel_block, image_spec, data_window, display_window) = match use_cache {\n                true => match cache.get(&hash_value) {\n                    Some(cached_img) => {", "            let use_cache = attr_block.get_attr_i32(\"use_cache\") != 0;\n            let found = use_cache && cache.get(&hash_value).is_some();\n            debug!(\"found={}\", found);\n            let (pixel_block, image_spec, data_window, display_window) = match use_cache {\n                true => match cache.get(&hash_value) {\n                    Some(cached_img) => {"))
m("r-tr", "D01", (TR, "        let count = buffer.len() / stride;\n        for i in 0..count {\n            let index = i * stride;\n\n            let x = buffer[index + 0];\n            let y = buffer[index + 1];\n\n            let (xu, yu) = _apply(self, x, y, image_window, inverse);\n\n            buffer[index + 0] = xu;\n            buffer[index + 1] = yu;\n        }", "        for point in buffer.chunks_exact_mut(stride) {\n            let (x, y) = _apply(self, point[0], point[1], image_window, inverse);\n            point[0] = x;\n            point[1] = y;\n        }"))
m("r-bake-remap", "D01", ("src/ops/pixelremap.rs", "    let mut pixel_coord_index = 0;\n    for dy in 0..dst_height as usize {\n        for dx in 0..dst_width as usize {\n            let dst_index: usize = (dy * dst_y_stride as usize) + (dx * dst_x_stride as usize);\n", "    let _ = dst_y_stride;\n    let mut pixel_coord_index = 0;\n    for i in 0..dst_num_pixels {\n        {\n            let dst_index: usize = i * dst_x_stride as usize;\n"))
m("r-read", "R01 S01 K01", (R, "            if path.is_file() == true {", "            let exists = path.metadata().map(|m| m.is_file()).unwrap_or(false);\n            if exists {"))
m("r-execute", "G02 G04 K01", (G, "        for node_index in node_indexes.iter() {\n            compute_modes.insert(node_index.index(), NodeComputeMode::NONE);\n        }\n", "        compute_modes.extend(node_indexes.iter().map(|x| (x.index(), NodeComputeMode::NONE)));\n"))

def run(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ids = sys.argv[1:]
    t = tempfile.mkdtemp(prefix="mut")
    try:
        b = os.path.join(t, "b"); run(["cp", "-a", "/verif/.build", b])
        for i, props, edits in M:
            if ids and i not in ids and not any(x.endswith("*") and i.startswith(x[:-1]) for x in ids): continue
            r = os.path.join(t, "r"); shutil.rmtree(r, ignore_errors=True)
            run("git clone -q --shared /repo " + r)
            bad = None
            for f, old, nw in edits:
                p = os.path.join(r, f); s = open(p).read()
                if s.count(old) < 1: bad = "%d matches in %s for %r" % (s.count(old), f, old[:80])
                open(p, "w").write(s.replace(old, nw, 1))
            if bad: print("BAD    %s %s" % (i, bad), flush=True); continue
            for pr in props:
                x = run([os.path.join(V, "run.py"), pr, "quick"], env=dict(os.environ, VP_REPO=r, VP_BUILD=b, VP_OUT=os.path.join(t, "out")))
                vio = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION property=" + pr)]
                inc = [l for l in x.stdout.splitlines() if l.startswith("inconclusive")]
                st = "CAUGHT" if vio and x.returncode == 1 else "quiet " if x.returncode == 0 else "NOANSW"
                print("%s %-20s %s exit=%s %s %s" % (st, i, pr, x.returncode, x.stdout.strip().splitlines()[-1][-40:], (" | ".join(inc))[:700] if st == "NOANSW" else ""), flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
main()
